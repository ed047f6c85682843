----------------------------- MODULE RootsModel -----------------------------
(***************************************************************************)
(* The bracket machine: the function is any table of signs on the points   *)
(* 0..N, the bracket an interval with opposite signs at its ends, and a    *)
(* step evaluates any inner point (or the middle one) and keeps the part   *)
(* with the change of sign.  Whatever point is chosen, the bracket keeps a *)
(* change of sign and shrinks, and when it is small enough the answer is   *)
(* one the specification accepts; with the middle point it takes at most   *)
(* log2(N) steps.                                                          *)
(***************************************************************************)
EXTENDS Roots
CONSTANT N
VARIABLES tab, lo, hi, steps, mode, evals
Init == /\ tab \in [0..N -> {-1, 0, 1}] /\ tab[0] * tab[N] < 0
        /\ lo = 0 /\ hi = N /\ steps = 0 /\ mode \in {"mid", "any"} /\ evals = {0, N}
Inner == IF mode = "mid" THEN {(lo + hi) \div 2} ELSE (lo + 1)..(hi - 1)
Next == /\ hi - lo > 1
        /\ \E x \in Inner :
             /\ evals' = evals \cup {x}
             /\ steps' = steps + 1
             /\ IF tab[x] * tab[lo] > 0 THEN lo' = x /\ UNCHANGED hi ELSE hi' = x /\ UNCHANGED lo
        /\ UNCHANGED <<tab, mode>>
Bracketed == 0 <= lo /\ lo < hi /\ hi <= N /\ tab[lo] # 0 /\ tab[lo] * tab[hi] <= 0
Shrinks == steps <= N /\ (mode = "mid" => hi - lo <= (N \div (2 ^ steps)) + 1)
\* the finished run as an event
SeqOf(S) == LET f[k \in 0..N] == IF k = 0 THEN (IF 0 \in S THEN <<0>> ELSE <<>>) ELSE IF k \in S THEN Append(f[k - 1], k) ELSE f[k - 1] IN f[N]
Ev == LET q == SeqOf(evals) IN
      [a |-> "0", b |-> RCanon(N), tol |-> "1/2", max |-> N, err |-> 0, loop |-> FALSE, r |-> RDiv(lo + hi, 2),
       calls |-> [i \in 1..Len(q) |-> <<RCanon(q[i]), RCanon(tab[q[i]])>>]]
Accepted == hi - lo = 1 => BracketOK(Ev) /\ ~BracketOK([Ev EXCEPT !.b = "-1"])
                           /\ ~BracketOK([Ev EXCEPT !.err = 1, !.r = "nan"])
                           \* a value two cells away from every change of sign is not accepted
                           /\ \A x \in 0..N : (\A k \in 0..N : (k >= x - 2 /\ k <= x + 2) => tab[k] * tab[x] > 0) => ~BracketOK([Ev EXCEPT !.r = RCanon(x)])
=============================================================================
