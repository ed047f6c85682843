----------------------------- MODULE PolyModel ------------------------------
(* Long division as a transition system: p = q d + r at every step and the  *)
(* degree of r decreases until it is below that of d; and the ring laws.     *)
EXTENDS Poly
CONSTANTS N, M
VARIABLES p, d, q, r
vars == <<p, d, q, r>>
Coef == {"-1", "0", "2"}
Polys(n) == UNION {[1..k -> Coef] : k \in 0..n}
Init == /\ p \in Polys(N) /\ d \in Polys(M) /\ ~NullT(d, 0)
        /\ q = <<>> /\ r = p
Done == NullT(r, 0) \/ Deg(r) < Deg(d)
Next == /\ ~Done
        /\ LET n == DivStep(q, r, d) IN q' = n[1] /\ r' = n[2]
        /\ UNCHANGED <<p, d>>
Division == YEq(p, YAdd(YMul(q, d), r)) /\ Len(q) <= Larger(0, Deg(p) - Deg(d) + 1)
Decreases == [][Len(r') < Len(r) \/ Deg(r') < Deg(r) \/ NullT(r', 0)]_vars
Accepted == Done => YDivOK(p, d, q)
Refuses == (Done /\ Len(q) > 0) => ~YDivOK(p, d, [q EXCEPT ![1] = RAdd(@, "1e-6")])
Laws == q = <<>> =>
  /\ YEq(YMul(p, d), YMul(d, p)) /\ YEq(YMul(p, YAdd(d, <<"1", "3">>)), YAdd(YMul(p, d), YMul(p, <<"1", "3">>)))
  /\ YEq(YDer(YInt(p)), p) /\ YEq(YDer(YMul(p, d)), YAdd(YMul(YDer(p), d), YMul(p, YDer(d))))
  /\ \A x \in {"0", "2", "-1/3"} : REq(YVal(YMul(p, d), x), RMul(YVal(p, x), YVal(d, x))) /\ REq(YVal(YAdd(p, d), x), RAdd(YVal(p, x), YVal(d, x)))
  /\ LET P == YRoots(p) IN \A i \in 1..Len(p) : REq(YVal(P, p[i]), 0)
=============================================================================
