---------------------------- MODULE SamplingModel ---------------------------
(***************************************************************************)
(* The exchange shuffle as a step machine over every choice of indices:    *)
(* each step keeps the multiset of elements, and every arrangement can be  *)
(* reached.  The hit-or-miss estimator counted over all points of a        *)
(* rectangular grid is exact for a step function of any sign.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT N
VARIABLES v, k
Init == v = [i \in 1..N |-> i] /\ k = 0
Next == /\ k < (N - 1) * (N - 1)
        /\ \E i \in 1..N, j \in 1..N : v' = [v EXCEPT ![i] = v[j], ![j] = v[i]]
        /\ k' = k + 1
Permutation == {v[i] : i \in 1..N} = 1..N
Perms == {p \in [1..N -> 1..N] : {p[i] : i \in 1..N} = 1..N}
\* f(x) = h on [0, 1], rectangle [c, d], M points of the grid c + (d - c)(j + 1/2)/M: integral = h
HitExact == \A c \in -2..2 : \A d \in (c + 1)..3 : \A h \in c..d :
   LET M == d - c
       hits == Cardinality({j \in 0..(M - 1) : 2 * h >= 2 * c + 2 * j + 1})
   IN c * M + (d - c) * hits = h * M
ASSUME HitExact
=============================================================================
