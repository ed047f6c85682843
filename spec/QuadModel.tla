----------------------------- MODULE QuadModel ------------------------------
(***************************************************************************)
(* The rules as specified have the order they promise: exact on the        *)
(* monomials up to their degree on every interval of the walk, in either   *)
(* orientation, additive over adjacent intervals, and not exact on the     *)
(* next degree.  The walk moves the ends of the interval and the number of *)
(* steps.                                                                  *)
(***************************************************************************)
EXTENDS Quad
CONSTANT Lim
VARIABLES a, b, n
Init == a = "-1/2" /\ b = "-1/2" /\ n = 1
Next == \/ b' = RAdd(b, "1/3") /\ RLt(b, Lim) /\ UNCHANGED <<a, n>>
        \/ a' = RAdd(a, "3/4") /\ RLt(a, Lim) /\ UNCHANGED <<b, n>>
        \/ n < 4 /\ n' = n + 1 /\ UNCHANGED <<a, b>>
Mon(k) == [i \in 1..(k + 1) |-> IF i = k + 1 THEN "1" ELSE "0"]
Same == REq(a, b)
Odd(x, y) == REq(x, RNeg(y))
Orders == /\ \A k \in 0..1 : REq(Mid(Mon(k), a, b, n), Itg(Mon(k), a, b)) /\ REq(TrapS(Mon(k), a, b, n), Itg(Mon(k), a, b))
          /\ \A k \in 0..3 : REq(SimpS(Mon(k), a, b, 2 * n), Itg(Mon(k), a, b))
          /\ \A k \in 0..(2 * n - 1) : REq(Romb(Mon(k), a, b, n - 1)[n - 1][n], Itg(Mon(k), a, b))
          /\ Same \/ (~REq(Mid(Mon(2), a, b, n), Itg(Mon(2), a, b)) /\ ~REq(TrapS(Mon(2), a, b, n), Itg(Mon(2), a, b)) /\ ~REq(SimpS(Mon(4), a, b, 2 * n), Itg(Mon(4), a, b))
                      /\ ~REq(Romb(Mon(2 * n), a, b, n - 1)[n - 1][n], Itg(Mon(2 * n), a, b)))
Oriented == \A k \in {2, 5} : Odd(Mid(Mon(k), a, b, n), Mid(Mon(k), b, a, n)) /\ Odd(TrapS(Mon(k), a, b, n), TrapS(Mon(k), b, a, n)) /\ Odd(SimpS(Mon(k), a, b, 2 * n), SimpS(Mon(k), b, a, 2 * n))
\* two steps are one step on either half
Additive == LET m == RDiv(RAdd(a, b), 2) IN \A k \in {2, 5} :
              /\ REq(TrapS(Mon(k), a, b, 2 * n), RAdd(TrapS(Mon(k), a, m, n), TrapS(Mon(k), m, b, n)))
              /\ REq(Mid(Mon(k), a, b, 2 * n), RAdd(Mid(Mon(k), a, m, n), Mid(Mon(k), m, b, n)))
              /\ REq(SimpS(Mon(k), a, b, 2 * n), RDiv(RSub(RMul(4, TrapS(Mon(k), a, b, 2 * n)), TrapS(Mon(k), a, b, n)), 3))
TailOK == \A k \in 0..4 : REq(YVal(LagTail(Mon(k)), 0), Fct(k)) /\ YEq(YSub(LagTail(Mon(k)), YDer(LagTail(Mon(k)))), Mon(k))
=============================================================================
