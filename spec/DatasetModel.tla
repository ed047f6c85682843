---------------------------- MODULE DatasetModel ----------------------------
(***************************************************************************)
(* Pairwise summation as a work list of index ranges: for every length and *)
(* base size every index is summed exactly once and the work ends.         *)
(* Compensated summation in a toy floating-point system (P significant     *)
(* bits): the error obeys the bound used in Dataset.tla, for all data.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, P, Vals, MaxL

VARIABLES mode, n, base, todo, done,      \* pairwise
          xs, sum, corr                   \* compensated
vars == <<mode, n, base, todo, done, xs, sum, corr>>

TheVals == {-1000, -37, -16, -3, 1, 5, 17, 100, 999}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Ulp(_, _)
Ulp(a, u) == IF a < u * 2^P THEN u ELSE Ulp(a, 2 * u)
Round(x) ==      \* nearest multiple of the unit, ties to even
  LET u == Ulp(Abs(x), 1) q == Abs(x) \div u r == Abs(x) % u
      m == IF 2 * r > u \/ (2 * r = u /\ q % 2 = 1) THEN q + 1 ELSE q
  IN IF x < 0 THEN -(m * u) ELSE m * u

Init == \/ /\ mode = "pair" /\ n \in 1..MaxN /\ base \in 1..MaxN
           /\ todo = {<<0, n>>} /\ done = <<>> /\ xs = <<>> /\ sum = 0 /\ corr = 0
        \/ /\ mode = "comp" /\ n = 0 /\ base = 0 /\ todo = {} /\ done = <<>> /\ xs = <<>> /\ sum = 0 /\ corr = 0

Pair == /\ mode = "pair"
        /\ \E w \in todo :
             IF w[2] - w[1] <= base
             THEN todo' = todo \ {w} /\ done' = done \o [i \in 1..(w[2] - w[1]) |-> w[1] + i]
             ELSE LET c == w[1] + ((w[2] - w[1]) \div 2) IN todo' = (todo \ {w}) \cup {<<w[1], c>>, <<c, w[2]>>} /\ done' = done
        /\ UNCHANGED <<mode, n, base, xs, sum, corr>>
Comp == /\ mode = "comp" /\ Len(xs) < MaxL
        /\ \E x \in Vals :
             LET t == Round(sum + x)
                 c == IF Abs(sum) >= Abs(x) THEN Round(Round(sum - t) + x) ELSE Round(Round(x - t) + sum)
             IN xs' = Append(xs, x) /\ sum' = t /\ corr' = Round(corr + c)
        /\ UNCHANGED <<mode, n, base, todo, done>>
Next == Pair \/ Comp
Spec == Init /\ [][Next]_vars /\ WF_vars(Pair)

OnceEach == mode = "pair" => \A i, j \in 1..Len(done) : i # j => done[i] # done[j]
AllSummed == (mode = "pair" /\ todo = {}) => {done[i] : i \in 1..Len(done)} = 1..n
Ends == <>(mode = "pair" => todo = {})

Tot == LET f[i \in 0..Len(xs)] == IF i = 0 THEN 0 ELSE f[i - 1] + xs[i] IN f[Len(xs)]
Mag == LET f[i \in 0..Len(xs)] == IF i = 0 THEN 0 ELSE f[i - 1] + Abs(xs[i]) IN f[Len(xs)]
\* |result - exact| <= 2 ulp |exact| + n^2 ulp^2 * magnitudes, ulp = 2^(1-P)
CompBound == mode = "comp" =>
  Abs(Round(sum + corr) - Tot) * 4^P <= 2 * Abs(Tot) * 2^(P + 1) + (Len(xs) * Len(xs) + 1) * 4 * Mag
=============================================================================
