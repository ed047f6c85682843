-------------------------------- MODULE Pdf ---------------------------------
(***************************************************************************)
(* Densities and mass functions.  Each is the exponential of a sum of      *)
(* terms (enclosures), so that the accuracy which the terms allow is known *)
(* from their sizes; or exactly zero outside the support.  Likelihoods are *)
(* products of densities over a sample.                                    *)
(***************************************************************************)
EXTENDS Gam, TLC

Zero == [k |-> "zero"]
Free == [k |-> "free"]                 \* a pole of the density, or no parameter of the family
\* terms and the relative accuracy of the constants and roots used
V(ts, n, acc) == [k |-> "val", ts |-> Eager(ts), n |-> n, acc |-> acc]
Mass(e, n, z) == [k |-> "mass", e |-> Eager(e), n |-> n, z |-> z]
ISumS(ts) == LET f[i \in 0..Len(ts)] == IF i = 0 THEN Pt("0") ELSE IAdd(Eager(f[i - 1]), ts[i]) IN Eager(f[Len(ts)])
Size(ts) == RSum([i \in 1..Len(ts) |-> IAbsMax(ts[i])])
Val(d) == IF d.k = "zero" THEN Pt("0") ELSE IF d.k = "mass" THEN d.e ELSE LET s == Eager(ISumS(d.ts)) IN Eager(IExp(s))
RelTol(d) == IF d.k = "mass" THEN RMul(RMul(16, U), RAdd(d.n + 8, RMul(2, d.z))) ELSE RAdd(d.acc, RMul(RMul(16, U), RAdd(d.n + 8, RMul(2, Size(d.ts)))))
Under == "1e-290"
DensOK(d, r) ==
  CASE d.k = "zero" -> RIsNum(r) /\ REq(r, 0)
    [] d.k = "free" -> TRUE
    [] OTHER -> LET e == Eager(Val(d)) IN RIsNum(r) /\ RLe(0, r) /\ InEncl(r, e, RAdd(Under, RMul(RelTol(d), e[2])))

L(x) == Eager(LnE(x))                      \* x > 0
Lpi == Once("ln pi", ILn(PiE))
Half(a) == IScale("1/2", a)
GAcc == "2e-9"                             \* accuracy of the Gamma function
FactE(n) == RProd([k \in 1..n |-> k])
Binom(n, k) == RDiv(FactE(n), RMul(FactE(k), FactE(n - k)))
\* a ln x, for x > 0
Pw(x, a) == IScale(a, L(x))
\* the density (name, parameters) at x
Dens(f, x, th) ==
  LET a == th[1] b == th[Len(th)]
      T(k) == RToInt(th[k])
  IN
  CASE f = "gaussian" -> V(<<Pt(RNeg(RDiv(RSq(RSub(x, a)), RMul(2, RSq(b))))), INeg(L(b)), INeg(LnSqrt2Pi)>>, 0, 0)
    [] f = "bernoulli" -> IF REq(x, 0) THEN Mass(Pt(RSub(1, a)), 1, 0) ELSE IF REq(x, 1) THEN Mass(Pt(a), 1, 0) ELSE Zero
    [] f = "poisson" -> IF RLt(x, 0) THEN Zero ELSE LET k == RToInt(x) IN Mass(IScale(RDiv(RPow(a, k), FactE(k)), ExpE(RNeg(a))), k, a)
    [] f = "binomial" -> IF RLt(x, 0) \/ RLt(a, x) THEN Zero ELSE LET k == RToInt(x) n == T(1) IN Mass(Pt(RMul(Binom(n, k), RMul(RPow(b, k), RPow(RSub(1, b), n - k)))), 2 * n, 0)
    [] f = "chi_squared" -> IF RLt(x, 0) THEN Zero
         ELSE IF REq(x, 0) THEN (IF REq(a, 2) THEN Mass(Pt("1/2"), 0, 0) ELSE IF RLt(2, a) THEN Zero ELSE Free)
         ELSE V(<<Pw(x, RSub(RDiv(a, 2), 1)), Pt(RNeg(RDiv(x, 2))), Pw(2, RNeg(RDiv(a, 2))), INeg(LnGammaE(RDiv(a, 2)))>>, 2 * T(1), 0)
    [] f \in {"gamma", "erlang"} ->
         LET al == a be == b IN
         IF RLt(x, 0) THEN Zero
         ELSE IF REq(x, 0) THEN (IF REq(al, 1) THEN Mass(Pt(be), 0, 0) ELSE IF RLt(1, al) THEN Zero ELSE Free)
         ELSE V(<<Pw(be, al), Pw(x, RSub(al, 1)), Pt(RNeg(RMul(be, x))), INeg(LnGammaE(al))>>, 2 * RToInt(RFloor(al)), IF f = "erlang" THEN 0 ELSE GAcc)
    [] f = "beta" ->
         IF RLt(x, 0) \/ RLt(1, x) THEN Zero
         ELSE IF REq(x, 0) THEN (IF RLt(1, a) THEN Zero ELSE Free)
         ELSE IF REq(x, 1) THEN (IF RLt(1, b) THEN Zero ELSE Free)
         ELSE V(<<Pw(x, RSub(a, 1)), Pw(RSub(1, x), RSub(b, 1)), LnGammaE(RAdd(a, b)), INeg(LnGammaE(a)), INeg(LnGammaE(b))>>, 8, GAcc)
    [] f = "student" -> LET q == RAdd(1, RDiv(RSq(x), a)) IN
         V(<<Pw(q, RNeg(RDiv(RAdd(a, 1), 2))), Half(INeg(IAdd(L(a), Lpi))), LnGammaE(RDiv(RAdd(a, 1), 2)), INeg(LnGammaE(RDiv(a, 2)))>>, 3 * T(1), 0)
    [] f = "log_normal" -> IF RLe(x, 0) THEN Zero
         ELSE LET d == ISub(L(x), Pt(a)) m == RMul(IAbsMax(L(x)), RDiv(IAbsMax(d), RSq(b)))
              IN  V(<<INeg(IScale(RDiv(1, RMul(2, RSq(b))), IMul(d, d))), INeg(L(x)), INeg(L(b)), INeg(LnSqrt2Pi)>>, 0, RAdd("1e-12", RMul(RMul(16, U), RAdd(m, RMul(RAbs(a), RDiv(IAbsMax(d), RSq(b)))))))
    [] f = "exponential" -> IF RLt(x, 0) THEN Zero ELSE V(<<L(a), Pt(RNeg(RMul(a, x)))>>, 0, 0)
    [] f = "rayleigh" -> IF RLe(x, 0) THEN Zero ELSE V(<<L(x), Pt(RNeg(RDiv(RSq(x), RMul(2, RSq(a))))), IScale(-2, L(a))>>, 0, 0)
    [] f = "cauchy" -> V(<<INeg(L(RAdd(1, RDiv(RSq(RSub(x, a)), RSq(b))))), INeg(L(b)), INeg(Lpi)>>, 0, 0)
    [] f = "breit_wigner" -> V(<<INeg(L(RAdd(RSq(RSub(x, a)), RDiv(RSq(b), 4)))), L(b), INeg(IAdd(Lpi, L(2)))>>, 0, 0)
    [] f = "maxwell" -> IF RLe(x, 0) THEN Zero ELSE V(<<Pw(x, 2), Pt(RNeg(RDiv(RSq(x), RMul(2, RSq(a))))), Pw(a, -3), Half(ISub(L(2), Lpi))>>, 0, 0)
    [] f = "laplace" -> V(<<Pt(RNeg(RDiv(RAbs(RSub(x, a)), b))), INeg(L(RMul(2, b)))>>, 0, 0)
    [] f = "pareto" -> IF RLt(x, a) THEN Zero ELSE V(<<L(b), Pw(a, b), INeg(Pw(x, RAdd(b, 1)))>>, 0, 0)
\* n! prod p_i^x_i / x_i!
Multi(xs, n, p) == IF ~REq(RSum(xs), n) THEN Zero
                   ELSE Mass(Pt(RMul(FactE(n), RProd([i \in 1..Len(xs) |-> RDiv(RPow(p[i], RToInt(xs[i])), FactE(RToInt(xs[i])))]))), 4 * n, 0)

LikeOK(e) ==
  LET n == Len(e.f) z == \E i \in 1..n : ~RIsNum(e.f[i]) \/ REq(e.f[i], 0) IN
  IF \E i \in 1..n : ~RIsNum(e.f[i]) THEN TRUE
  ELSE /\ InEncl(e.l, Pt(RProd(e.f)), RAdd(Under, RMul(RMul(4 * (n + 1), U), RAbs(RProd(e.f)))))
       /\ IF z THEN ~RIsNum(e.ll)
          ELSE LET s == ISumS([i \in 1..n |-> L(e.f[i])]) IN RIsNum(e.ll) /\ InEncl(e.ll, s, RMul(RMul(16 * (n + 2), U), RAdd(n, Size([i \in 1..n |-> L(e.f[i])]))))
D0 == 0
DStep(s, e) ==
  CASE e.op = "pdf" -> LET d == Eager(Dens(e.f, e.x, e.th)) IN DensOK(d, e.r) /\ DensOK(d, e.r2) /\ (d.k # "free" => e.err = 0)
    [] e.op = "size" -> e.r = "nan" /\ e.err # 0
    [] e.op = "mass" -> /\ \A k \in 1..Len(e.r) : DensOK(Dens(e.f, k - 1, e.th), e.r[k])
                        /\ Near(RSum(e.r), 1, "1e-12")
    [] e.op = "multi" -> IF e.bad THEN e.r = "nan" /\ e.err # 0 ELSE DensOK(Multi(e.x, e.n, e.p), e.r)
    [] e.op = "like" -> LikeOK(e) /\ \A i \in 1..Len(e.x) : DensOK(Dens(e.d, e.x[i], e.th), e.f[i])
DNext(s, e) == s
=============================================================================
