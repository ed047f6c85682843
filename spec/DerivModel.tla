----------------------------- MODULE DerivModel -----------------------------
(***************************************************************************)
(* Every rule is exact on the polynomials up to its degree, and its error  *)
(* on the next degree does not vanish (that is the order it promises).     *)
(* The rules are applied to every monomial around a moving point with a    *)
(* shrinking step.                                                         *)
(***************************************************************************)
EXTENDS Deriv
VARIABLES f, d, x, h
Rules == {"central", "forward", "backward", "ridders2", "deriv", "ridders", "deriv2"}
Init == f \in Rules /\ d \in (IF f = "ridders" THEN 1..5 ELSE {1}) /\ x \in {"0", "1", "-3/2"} /\ h = "1"
Next == RLt("1/16", h) /\ h' = RDiv(h, 2) /\ UNCHANGED <<f, d, x>>
App(k) == LET r == Eager(Rule(f, d)) IN
          RDiv(RSum([i \in 1..Len(r) |-> LET t == RAdd(x, RMul(r[i][1], h)) IN RMul(r[i][2], IF k = 0 THEN 1 ELSE RPow(t, k))]), RPow(h, Order(f)))
True(k) == IF Order(f) = 1 THEN (IF k = 0 THEN "0" ELSE RMul(k, IF k = 1 THEN 1 ELSE RPow(x, k - 1)))
           ELSE (IF k < 2 THEN "0" ELSE RMul(k * (k - 1), IF k = 2 THEN 1 ELSE RPow(x, k - 2)))
ExactUpTo == \A k \in 0..Exact(f, d) : REq(App(k), True(k))
\* the leading error is the moment of the rule times h^(degree - order), and it does not vanish
Leading == LET k == Exact(f, d) + 1 IN REq(RSub(App(k), True(k)), RMul(Mom(Rule(f, d), k), RPow(h, k - Order(f)))) /\ ~REq(App(k), True(k))
=============================================================================
