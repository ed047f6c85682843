----------------------------- MODULE IntsModel ------------------------------
(***************************************************************************)
(* The binary-search root as a step machine on W-bit words, with the mean  *)
(* of the bounds formed without overflow: for every argument of the word   *)
(* the bounds keep lower^K <= n < upper^K, no step leaves the word, the    *)
(* interval shrinks, and the result is the floor root.  The square-and-    *)
(* multiply power is checked against repeated multiplication.              *)
(***************************************************************************)
EXTENDS Ints, TLC

CONSTANTS W, K

VARIABLES n, lower, upper, pc
vars == <<n, lower, upper, pc>>

Init == /\ n \in 0..(2^W - 1)
        /\ lower = 0 /\ upper = (n \div 2) + 2 /\ pc = "search"

Mid == (lower \div 2) + (upper \div 2) + (IF lower % 2 = 1 /\ upper % 2 = 1 THEN 1 ELSE 0)
Quot == IF K = 2 THEN n \div Mid ELSE (n \div Mid) \div Mid

Step == /\ pc = "search" /\ lower # upper - 1
        /\ \/ Mid > Quot /\ upper' = Mid /\ lower' = lower /\ pc' = pc
           \/ Mid < Quot /\ lower' = Mid /\ upper' = upper /\ pc' = pc
           \/ Mid = Quot /\ lower' = Mid /\ upper' = upper /\ pc' = "done"
        /\ n' = n
Stop == pc = "search" /\ lower = upper - 1 /\ pc' = "done" /\ UNCHANGED <<n, lower, upper>>
Next == Step \/ Stop

InWord == upper < 2^W /\ lower < upper
Bracket == RLe(RPow(lower, K), n) /\ RLt(n, RPow(upper, K))
NoZeroDivision == (pc = "search" /\ lower # upper - 1) => Mid > 0
Shrinks == [][pc' = "done" \/ upper' - lower' < upper - lower]_vars
Correct == pc = "done" => IsFloorRoot(ToString(lower), n, K)

\* x^e by squaring up to the largest power of two and then by x^2 and x
RECURSIVE Sq(_, _, _), Rest(_, _, _, _)
Sq(res, i, e) == IF i <= e \div 2 THEN Sq(RMul(res, res), 2 * i, e) ELSE <<res, i>>
Rest(res, i, e, x) == IF i < e - 1 THEN Rest(RMul(res, RMul(x, x)), i + 2, e, x)
                      ELSE IF i < e THEN Rest(RMul(res, x), i + 1, e, x) ELSE res
Power(x, e) == IF e = 0 THEN "1" ELSE LET p == Sq(x, 1, e) IN Rest(p[1], p[2], e, x)
ASSUME PowerLaw == \A x \in {"2", "-3", "1/2"}, e \in 0..70 : Power(x, e) = RPow(x, e)
ASSUME Pascal == \A m \in 1..30 : \A k \in 1..(m - 1) : Binom(m, k) = RAdd(Binom(m - 1, k), Binom(m - 1, k - 1))
=============================================================================
