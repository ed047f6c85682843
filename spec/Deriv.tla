------------------------------- MODULE Deriv --------------------------------
(***************************************************************************)
(* Finite differences.  A rule is a set of nodes x + o h (o a rational)    *)
(* with weights w; it returns the sum of w f(x + o h), divided by h (or    *)
(* h^2 for the second derivative).  The machine accepts a call when the    *)
(* function was evaluated at the nodes of the rule, and nowhere else, and  *)
(* the result is the rule's combination of the values it got.              *)
(***************************************************************************)
EXTENDS Cplx

\* a rule is a sequence of <<offset, weight>>
Central == <<<<"1", "1/2">>, <<"-1", "-1/2">>>>
Scale(r, c) == [i \in 1..Len(r) |-> <<RDiv(r[i][1], c), RMul(r[i][2], c)>>]        \* with step h / c
Comb(a, r, b, s) == [i \in 1..(Len(r) + Len(s)) |-> IF i <= Len(r) THEN <<r[i][1], RMul(a, r[i][2])>> ELSE <<s[i - Len(r)][1], RMul(b, s[i - Len(r)][2])>>]
\* Neville's scheme on the central differences with steps h, h/2, h/4, ...: entry (n, m)
RECURSIVE Ridders(_, _)
Ridders(n, m) == IF n = 0 THEN Scale(Central, R2Pow(m))
                 ELSE LET c == R2Pow(2 * n) IN Comb(RDiv(c, RSub(c, 1)), Ridders(n - 1, m + 1), RDiv(-1, RSub(c, 1)), Ridders(n - 1, m))
Rule(f, d) == CASE f = "central" -> Central
                [] f = "forward" -> <<<<"1", "1">>, <<"0", "-1">>>>
                [] f = "backward" -> <<<<"0", "1">>, <<"-1", "-1">>>>
                [] f \in {"ridders2", "deriv"} -> Ridders(1, 0)
                [] f = "ridders" -> Ridders(d - 1, 0)
                [] f = "deriv2" -> <<<<"1", "1">>, <<"0", "-2">>, <<"-1", "1">>>>
Order(f) == IF f = "deriv2" THEN 2 ELSE 1
\* degree up to which the rule is exact, whatever the step
Exact(f, d) == CASE f = "central" -> 2 [] f \in {"forward", "backward"} -> 1 [] f \in {"ridders2", "deriv"} -> 4 [] f = "ridders" -> 2 * d [] f = "deriv2" -> 3
\* the k-th moment of the rule: what it makes of the monomial t^k at t = 0, with h = 1
Mom(r, k) == RSum([i \in 1..Len(r) |-> RMul(r[i][2], IF k = 0 THEN 1 ELSE RPow(r[i][1], k))])

Node(e, o) == RAdd(e.x, RMul(o, e.h))
NodeTol(e) == RMul(RMul(4, U), RAdd(RAbs(e.x), RAbs(e.h)))
At(e, o, c) == Near(c[1], Node(e, o), NodeTol(e))
\* value seen at the node, the one of the nearest call
Calls(e, o) == {i \in 1..Len(e.calls) : At(e, o, e.calls[i])}
G0 == 0
GStep(s, e) ==
  IF e.f = "ridders" /\ e.d = 0 THEN e.err # 0 /\ e.r = "nan"
  ELSE LET r == Eager(Rule(e.f, e.d))
           hp == RPow(e.h, Order(e.f))
       IN  /\ e.err = 0
           /\ \A i \in 1..Len(r) : Calls(e, r[i][1]) # {}
           /\ \A i \in 1..Len(e.calls) : \E k \in 1..Len(r) : At(e, r[k][1], e.calls[i])
           \* the function is evaluated at the same argument whenever at the same node, unless rounding merges nodes
           /\ LET v == Eager([k \in 1..Len(r) |-> e.calls[CHOOSE i \in Calls(e, r[k][1]) : TRUE][2]])
                  sep == \A k \in 1..Len(r) : \A i, j \in Calls(e, r[k][1]) : e.calls[i][2] = e.calls[j][2]
                  t == [k \in 1..Len(r) |-> RDiv(RMul(r[k][2], v[k]), hp)]
              IN  sep => Ulps(e.r, RSum(t), 8 + 6 * (IF e.f = "ridders" THEN e.d ELSE 2), RSumAbs(t))
GNext(s, e) == s
=============================================================================
