----------------------------- MODULE OrthModel ------------------------------
(* The recurrences as a transition system; every state satisfies the        *)
(* orthogonality relations of its weight exactly (by moments), the          *)
(* differential equation of the family and the known end values.            *)
EXTENDS Orth
CONSTANT N
VARIABLES fam, n, p1, p0
vars == <<fam, n, p1, p0>>
Al == "3/2"
Init == fam \in {"leg", "lag", "glag", "her", "ch1", "ch2"} /\ n = 1 /\ p1 = First(fam, Al) /\ p0 = <<"1">>
Next == n < N /\ n' = n + 1 /\ p1' = Recur(fam, Al, p1, p0, n + 1) /\ p0' = p1 /\ UNCHANGED fam
\* integral of a polynomial against the weight (divided by sqrt(pi) for Hermite)
Mom(k) == CASE fam = "leg" -> IF k % 2 = 1 THEN "0" ELSE RDiv(2, k + 1) [] fam = "lag" -> Fct(k)
            [] fam = "her" -> IF k % 2 = 1 THEN "0" ELSE RMul(DFct(k - 1), R2Pow(-(k \div 2)))
            [] fam = "glag" -> RProd([i \in 1..k |-> RAdd(i, Al)])
            [] fam = "ch1" -> IF k % 2 = 1 THEN "0" ELSE RDiv(Fct(k), RMul(RPow(2, k), RSq(Fct(k \div 2))))      \* over pi
            [] fam = "ch2" -> IF k % 2 = 1 THEN "0" ELSE RSub(RDiv(Fct(k), RMul(RPow(2, k), RSq(Fct(k \div 2)))), RDiv(Fct(k + 2), RMul(RPow(2, k + 2), RSq(Fct(k \div 2 + 1)))))
Against(q) == RSum([k \in 1..Len(q) |-> RMul(q[k], Mom(k - 1))])
Mono(k) == [i \in 1..(k + 1) |-> IF i = k + 1 THEN "1" ELSE "0"]
Orthogonal == \A k \in 0..(n - 1) : REq(Against(YMul(p1, Mono(k))), 0)
Exact == Deg(p1) = n /\ Orth(fam, Al, n) = p1
Norm == LET s == Against(YMul(p1, p1)) IN
  CASE fam = "leg" -> REq(s, RDiv(2, 2 * n + 1)) [] fam = "lag" -> REq(s, 1) [] fam = "her" -> REq(s, RMul(R2Pow(n), Fct(n)))
    [] fam = "ch1" -> REq(s, "1/2") [] OTHER -> RLt(0, s)
Ends == CASE fam \in {"leg", "ch1"} -> REq(YVal(p1, 1), 1) [] fam = "ch2" -> REq(YVal(p1, 1), n + 1) [] fam = "lag" -> REq(p1[1], 1) [] OTHER -> TRUE
Ode == LET d1 == YDer(p1) d2 == YDer(d1) x == X IN
  CASE fam = "leg" -> NullT(YAdd(YSub(YMul(<<"1", "0", "-1">>, d2), YMul(<<"0", "2">>, d1)), YScal(n * (n + 1), p1)), 0)
    [] fam = "lag" -> NullT(YAdd(YAdd(YMul(x, d2), YMul(<<"1", "-1">>, d1)), YScal(n, p1)), 0)
    [] fam = "glag" -> NullT(YAdd(YAdd(YMul(x, d2), YMul(<<RAdd(1, Al), "-1">>, d1)), YScal(n, p1)), 0)
    [] fam = "her" -> NullT(YAdd(YSub(d2, YMul(<<"0", "2">>, d1)), YScal(2 * n, p1)), 0)
    [] fam = "ch1" -> NullT(YAdd(YSub(YMul(<<"1", "0", "-1">>, d2), YMul(x, d1)), YScal(n * n, p1)), 0)
    [] fam = "ch2" -> NullT(YAdd(YSub(YMul(<<"1", "0", "-1">>, d2), YMul(<<"0", "3">>, d1)), YScal(n * (n + 2), p1)), 0)
=============================================================================
