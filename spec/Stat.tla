-------------------------------- MODULE Stat --------------------------------
(***************************************************************************)
(* Statistics of data sets, linear regression and propagation of           *)
(* uncertainties, over exact rationals.  A data set is a sequence; every   *)
(* statistic is its defining formula.  The state of the regression machine *)
(* is the line of the last fit: a fit replaces it by the minimiser of the  *)
(* (weighted) sum of squared residuals, or by an invalid line when there   *)
(* is none; evaluating uses it.  Results are compared up to the rounding   *)
(* error that a stable summation of the defining sums may commit.          *)
(***************************************************************************)
EXTENDS Hist, SequencesExt

Map1(f(_), d) == [i \in 1..Len(d) |-> f(d[i])]
Sum1(n, f(_)) == RSum([i \in 1..n |-> f(i)])
Bad(v) == v[1] = "nan" /\ v[2] # 0               \* v = <<value, error number>>
Good(v) == RIsNum(v[1]) /\ v[2] = 0
RSgn(a) == IF RLt(a, 0) THEN -1 ELSE IF RLt(0, a) THEN 1 ELSE 0
IsNear(v, x, t) == Good(v) /\ Near(v[1], x, t)
EpsN(n) == RMul(8 * (n + 2), U)

(***************************** estimators **********************************)
Dev(d) == LET m == Mean(d) IN [i \in 1..Len(d) |-> RSub(d[i], m)]
Var(d, c) == RDiv(Tss(d), Len(d) - c)
Cov(x, y, c) == RDiv(RDot(Dev(x), Dev(y)), Len(x) - c)
Auto(d, n) == LET v == Dev(d) IN RDiv(Sum1(Len(d) - n, LAMBDA i : RMul(v[i], v[i + n])), Tss(d))
AbsDev(d) == RDiv(RSum(Map1(RAbs, Dev(d))), Len(d))
Sig(d, c) == IMid(SqrtE(Var(d, c)))
Zs(d) == LET s == Sig(d, 1) IN Map1(LAMBDA x : RDown(RDiv(x, s), 200), Dev(d))
MeanPow(z, k) == RDiv(Sum1(Len(z), LAMBDA i : RPow(z[i], k)), Len(z))

\* the moment of order k of a standard normal variable
RECURSIVE NormM(_)
NormM(k) == IF k = 0 THEN "1" ELSE IF k = 1 THEN "0" ELSE RMul(k - 1, NormM(k - 2))
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
\* E g(m + s Z), g the polynomial with coefficients c
GaussE(c, m, s) == Sum1(Len(c), LAMBDA k : RMul(c[k], Sum1(k, LAMBDA j : RMul(Choose(k - 1, j - 1), RMul(RMul(RPow(m, k - j), RPow(s, j - 1)), NormM(j - 1))))))
\* a bound of the terms added
GaussT(c, m, s) == Sum1(Len(c), LAMBDA k : RMul(RAbs(c[k]), RPow(RAdd(RAbs(m), RMul(7, RAbs(s))), k - 1)))

(********************** the chi-squared distribution ***********************)
Fac(n) == RProd([k \in 1..n |-> k])
\* Gamma(n / 2 + 1)
GamHalf(n) == IF n % 2 = 0 THEN Pt(Fac(n \div 2))
              ELSE LET m == (n + 1) \div 2 IN IScale(RDiv(Fac(2 * m), RMul(R2Pow(2 * m), Fac(m))), ISqrt(PiE))
\* the probability that a chi-squared variable with n degrees of freedom exceeds x
ChiQ(x, n) ==
  IF RLe(x, 0) THEN Pt("1")
  ELSE LET h == RDiv(x, 2) a == RDiv(n, 2)
           K == 2 * RToInt(RFloor(h)) + 160
           s == FoldLeft(LAMBDA acc, k : RDown(RAdd(1, RDiv(RMul(h, acc), RAdd(a, k))), 160), "1", [i \in 1..K |-> K + 1 - i])
           c == IDiv(IExp(ISub(IScale(a, LnE(h)), Pt(h))), GamHalf(n))
       IN  ISub(Pt("1"), IMul(c, BallRel(s)))
PTol == "2e-9"
ChiOK(v, x, n) == LET q == Eager(ChiQ(x, n)) IN Good(v) /\ RLe(RSub(q[1], PTol), v[1]) /\ RLe(v[1], RAdd(q[2], PTol))

(*************************** least squares *********************************)
\* the sums of the weighted normal equations, and the accuracy of a computed line
Wls(x, y, w) ==
  LET n == Len(x)
      Sw == RSum(w) Sx == RDot(x, w) Sy == RDot(y, w)
      xw == [i \in 1..n |-> RMul(x[i], w[i])]
      Sxx == RDot(x, xw) Sxy == RDot(y, xw)
      ax == RSum(Map1(RAbs, xw)) ay == Sum1(n, LAMBDA i : RAbs(RMul(y[i], w[i]))) axy == Sum1(n, LAMBDA i : RAbs(RMul(y[i], xw[i])))
      D == RSub(RMul(Sw, Sxx), RSq(Sx))
      NA == RSub(RMul(Sxx, Sy), RMul(Sx, Sxy)) NB == RSub(RMul(Sw, Sxy), RMul(Sx, Sy))
      eps == EpsN(n)
      eD == RMul(eps, RAdd(RMul(Sw, Sxx), RSq(ax)))
      eA == RMul(eps, RAdd(RMul(Sxx, ay), RMul(ax, axy))) eB == RMul(eps, RAdd(RMul(Sw, axy), RMul(ax, ay)))
      well == RLe(RMul(4, eD), D) /\ RLt(RAdd(U, eD), D)
      A == IF REq(D, 0) THEN "0" ELSE RDiv(NA, D)
      B == IF REq(D, 0) THEN "0" ELSE RDiv(NB, D)
  IN  [well |-> well, none |-> RLt(RAdd(D, eD), U), A |-> A, B |-> B, D |-> D, Sw |-> Sw, Sx |-> Sx, Sxx |-> Sxx, ax |-> ax,
       tA |-> IF well THEN RAdd(RMul(2, RDiv(RAdd(eA, RMul(RAbs(A), eD)), D)), RMul(RMul(8, U), RAbs(A))) ELSE "0",
       tB |-> IF well THEN RAdd(RMul(2, RDiv(RAdd(eB, RMul(RAbs(B), eD)), D)), RMul(RMul(8, U), RAbs(B))) ELSE "0",
       tV |-> IF well THEN RAdd(RMul(2, RDiv(eD, D)), eps) ELSE "0"]
Ones(n) == [i \in 1..n |-> 1]
LineOK(L, A, B) == Near(A, L.A, L.tA) /\ Near(B, L.B, L.tB)
\* covariance of the coefficients, for unit variance times v
CovOK(L, v, c) == /\ Near(c[1], RMul(v, RDiv(L.Sxx, L.D)), RMul(L.tV, RMul(v, RDiv(L.Sxx, L.D))))
                  /\ Near(c[4], RMul(v, RDiv(L.Sw, L.D)), RMul(L.tV, RMul(v, RDiv(L.Sw, L.D))))
                  /\ c[2] = c[3] /\ Near(c[2], RNeg(RMul(v, RDiv(L.Sx, L.D))), RMul(L.tV, RMul(v, RDiv(L.ax, L.D))))
\* a is the square root of x, up to the relative accuracy t of x
RootOK(a, x, t) == RIsNum(a) /\ RLe(0, a) /\ Near(RSq(a), x, RMul(RAdd(t, RMul(8, U)), x))

Resid(x, y, A, B) == [i \in 1..Len(x) |-> RSub(y[i], RAdd(A, RMul(B, x[i])))]
\* weighted sum of squared residuals and the accuracy of its computation
SsqW(r, w) == Sum1(Len(r), LAMBDA i : RMul(w[i], RSq(r[i])))
SsqTol(x, y, w, A, B) ==
  LET r == Resid(x, y, A, B)
      e == [i \in 1..Len(x) |-> RMul(RMul(4, U), RAdd(RAbs(y[i]), RAdd(RAbs(A), RAbs(RMul(B, x[i])))))]
  IN  RAdd(RMul(EpsN(Len(x)), SsqW(r, w)), Sum1(Len(x), LAMBDA i : RMul(w[i], RMul(e[i], RAdd(RMul(2, RAbs(r[i])), e[i])))))
SsqOK(v, x, y, w, A, B, k) == RIsNum(v) /\ Near(RMul(v, k), SsqW(Resid(x, y, A, B), w), RAdd(SsqTol(x, y, w, A, B), RMul(RMul(4, U), RAbs(RMul(v, k)))))
ErrOK(v, x, y, A, B) == RLe(0, v) /\ SsqOK(RSq(v), x, y, Ones(Len(x)), A, B, Len(x) - 2)

(* errors on both axes: B is the root, with the sign of the covariance, of  *)
(* sx^2 dxy B^2 - (sx^2 dy - sy^2 dx) B - sy^2 dxy                          *)
Dem(x, y, sx, sy) ==
  LET n == Len(x) vx == RSq(sx) vy == RSq(sy)
      dx == RDiv(Tss(x), n) dy == RDiv(Tss(y), n) dxy == RDiv(RDot(Dev(x), Dev(y)), n)
      qx == RDiv(RDot(x, x), n) qy == RDiv(RDot(y, y), n)
      eps == EpsN(n)
      ex == RMul(eps, qx) ey == RMul(eps, qy) exy == RMul(eps, SqrtE(RMul(qx, qy))[2])
  IN  [vx |-> vx, vy |-> vy, dxy |-> dxy, dd |-> RSub(RMul(vx, dy), RMul(vy, dx)), sd |-> RAdd(RMul(vx, dy), RMul(vy, dx)), exy |-> exy,
       ed |-> RAdd(RMul(vx, ey), RMul(vy, ex)), well |-> RLt(RMul(4, exy), RAbs(dxy)) /\ RLt(RMul(4, ex), dx) /\ RLt(RMul(4, ey), dy)]
DemF(q, B) == RSub(RMul(RMul(q.vx, q.dxy), RSq(B)), RAdd(RMul(q.dd, B), RMul(q.vy, q.dxy)))
DemTol(q, B) == LET b == RAbs(B) c == RAdd(q.exy, RMul(RMul(64, U), RAbs(q.dxy)))
                IN  RMul(2, RAdd(RMul(RMul(q.vx, RSq(B)), c), RAdd(RMul(b, RAdd(q.ed, RMul(RMul(64, U), q.sd))), RMul(q.vy, c))))
DemOK(q, x, y, A, B) == /\ RIsNum(A) /\ RIsNum(B) /\ RSgn(B) = RSgn(q.dxy)
                        /\ RLe(RAbs(DemF(q, B)), DemTol(q, B))
                        /\ Near(A, RSub(Mean(y), RMul(B, Mean(x))), RMul(RMul(4, U), RMul(Len(x) + 4, RAdd(RMaxAbs(y), RMul(RAbs(B), RMaxAbs(x))))))

(*********************** propagation of uncertainties **********************)
\* polynomials in several variables: sequences of [c, e], e the exponents
Mono(t, x, ab) == RProd([k \in 1..Len(x) |-> RPow(IF ab THEN RAbs(x[k]) ELSE x[k], t.e[k])])
DTerm(t, x, i, ab) == IF t.e[i] = 0 THEN "0" ELSE RMul(RMul(IF ab THEN RAbs(t.c) ELSE t.c, t.e[i]), Mono([t EXCEPT !.e[i] = @ - 1], x, ab))
DPoly(p, x, i, ab) == RSum([k \in 1..Len(p) |-> DTerm(p[k], x, i, ab)])
\* v^T g g^T v for the matrix c
Quad2(g, c) == LET n == Len(g) IN RSum([i \in 1..n |-> RMul(g[i], RSum([j \in 1..n |-> RMul(g[j], c[i][j])]))])
PropOK(v, p, x, c, rel) ==
  LET n == Len(x) g == [i \in 1..n |-> DPoly(p, x, i, FALSE)] a == [i \in 1..n |-> DPoly(p, x, i, TRUE)]
      q == Quad2(g, c)
      t == RMul(RAdd(rel, RMul(256, U)), Quad2(a, [i \in 1..n |-> [j \in 1..n |-> RAbs(c[i][j])]]))
  IN  \/ RLe(q, t) /\ (v[1] = "nan" \/ RLe(RSq(v[1]), RAdd(q, t)))
      \/ Good(v) /\ RLe(0, v[1]) /\ Near(RSq(v[1]), q, t)
Diag(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN RSq(d[i]) ELSE "0"]]

(******************************** steps ************************************)
CovTol(x, y) == LET a == Tss(x) b == Tss(y) qx == RDot(x, x) qy == RDot(y, y) nu == EpsN(Len(x))
                    r(z) == SqrtE(z)[2]
                IN  RAdd(RMul(nu, RAdd(r(RMul(a, b)), RAdd(r(RMul(a, qy)), r(RMul(b, qx))))), RAdd(RMul(RSq(nu), r(RMul(qx, qy))), Tiny))
DataOK(e) ==
  LET d == e.x n == Len(d) f == e.f c == e.c
      S == IF n = 0 THEN "0" ELSE Eager(Tss(d)) T == IF n = 0 THEN "0" ELSE Eager(TssTol(d, S)) mt == IF n = 0 THEN "0" ELSE MeanTol(d)
      VarOK(v, k) == IF n <= k THEN Bad(v) ELSE IsNear(v, RDiv(S, n - k), RAdd(RDiv(T, n - k), RMul(RMul(4, U), RDiv(S, n - k))))
      SdOK(v, k, m) == IF n <= k THEN Bad(v) ELSE Good(v) /\ RLe(0, v[1]) /\ Near(RSq(v[1]), RDiv(S, RMul(n - k, m)), RAdd(RDiv(T, RMul(n - k, m)), RMul(RMul(8, U), RDiv(S, RMul(n - k, m)))))
      m == IF n = 0 THEN "0" ELSE Mean(d)
      conc == n > 1 /\ RLe(RMul(4, T), S)              \* the spread is known
      z == IF conc THEN Eager(Zs(d)) ELSE <<>>
      ez == IF conc THEN LET s == Sig(d, 1) IN [i \in 1..n |-> RAdd(RDiv(mt, s), RMul(RAbs(z[i]), RAdd(RDiv(T, S), RMul(16, U))))] ELSE <<>>
      PowTol(k) == RAdd(RMul(EpsN(n), MeanPow(Map1(RAbs, z), k)), RDiv(Sum1(n, LAMBDA i : RMul(k, RMul(ez[i], RPow(RAdd(RAbs(z[i]), ez[i]), k - 1)))), n))
  IN  /\ IF n = 0 THEN Bad(f.mean) /\ Bad(f.tss) /\ Bad(f.ad) ELSE IsNear(f.mean, m, mt) /\ IsNear(f.tss, S, T) /\ IsNear(f.ad, AbsDev(d), RAdd(mt, RMul(EpsN(n), AbsDev(d))))
      /\ VarOK(f.var, c) /\ VarOK(f.var1, 1) /\ SdOK(f.sd, c, 1) /\ SdOK(f.sd1, 1, 1) /\ SdOK(f.stdom, 1, IF n = 0 THEN 1 ELSE n)
      /\ VarOK(f.m2v, c) /\ (IF n <= c THEN Bad(f.m2m) ELSE IsNear(f.m2m, m, mt))
      /\ n > 0 => IsNear(f.range, RSub(MaxOf(d), MinOf(d)), RMul(U, RMaxAbs(d))) /\ IsNear(f.semi, RDiv(RSub(MaxOf(d), MinOf(d)), 2), RMul(U, RMaxAbs(d)))
      /\ IF n <= 1 THEN Bad(f.skew) /\ Bad(f.kurt) /\ Bad(f.sre)
         ELSE /\ conc => /\ IsNear(f.skew, MeanPow(z, 3), PowTol(3)) /\ IsNear(f.kurt, RSub(MeanPow(z, 4), 3), RAdd(PowTol(4), RMul(8, U)))
                         /\ Len(e.z) = n /\ \A i \in 1..n : RIsNum(e.z[i]) /\ Near(e.z[i], z[i], RMul(2, ez[i]))
              /\ IF RLt(RAdd(RAbs(m), mt), U) THEN Bad(f.sre)
                 ELSE (RLt(RAdd(U, mt), RAbs(m)) /\ RLt(RMul(4, mt), RAbs(m)) /\ conc) =>
                      Good(f.sre) /\ RLe(0, f.sre[1]) /\ Near(RSq(f.sre[1]), RDiv(S, RMul(n * (n - 1), RSq(m))), RMul(RDiv(S, RMul(n * (n - 1), RSq(m))), RAdd(RDiv(T, S), RAdd(RMul(32, U), RMul(8, RDiv(mt, RAbs(m)))))))
      /\ \A k \in 1..Len(e.lags) :
           LET g == e.lags[k] v == e.ac[k] t0 == RMul(2, RMul(mt, RSum(Map1(RAbs, Dev(d)))))
               y == Dev(d) a == Sum1(n - g, LAMBDA i : RAbs(RMul(y[i], y[i + g])))
           IN  IF g > n \/ n = 0 THEN Bad(v)
               ELSE conc => IsNear(v, Auto(d, g), RAdd(RMul(2, RDiv(RAdd(t0, RMul(EpsN(n), a)), S)), RMul(RAbs(Auto(d, g)), RDiv(RMul(2, T), S))))
PairOK(e) ==
  LET x == e.x y == e.y n == Len(x) f == e.f IN
  IF Len(y) # n THEN Bad(f.cov) /\ Bad(f.cov1) /\ f.rho[1] = "nan" /\ f.rho[2] # 0
  ELSE /\ IF n <= e.c THEN Bad(f.cov) ELSE IsNear(f.cov, Cov(x, y, e.c), RAdd(RDiv(CovTol(x, y), n - e.c), RMul(RMul(4, U), RAbs(Cov(x, y, e.c)))))
       /\ IF n <= 1 THEN Bad(f.cov1) /\ Bad(f.rho)
          ELSE /\ IsNear(f.cov1, Cov(x, y, 1), RAdd(RDiv(CovTol(x, y), n - 1), RMul(RMul(4, U), RAbs(Cov(x, y, 1)))))
               /\ LET a == Tss(x) b == Tss(y) ta == TssTol(x, a) tb == TssTol(y, b)
                  IN  (RLe(RMul(4, ta), a) /\ RLe(RMul(4, tb), b)) =>
                        LET s == SqrtE(RMul(a, b)) r == RDiv(RDot(Dev(x), Dev(y)), s[1])
                        IN  IsNear(f.rho, r, RAdd(RMul(2, RDiv(CovTol(x, y), s[1])), RAdd(RMul(64, U), RAdd(RDiv(ta, a), RDiv(tb, b)))))
PropSumOK(e) ==
  LET n == Len(e.x) q == RDot(e.x, e.x)
      m == [i \in 1..n |-> IF i <= Len(e.y) /\ ~REq(e.y[i], 0) THEN RDiv(e.x[i], e.y[i]) ELSE "0"]
  IN  /\ n > 0 => Good(e.f.sum) /\ RootOK(e.f.sum[1], q, EpsN(n))
      /\ IF Len(e.y) # n \/ \E i \in 1..n : REq(e.y[i], 0) THEN Bad(e.f.prod) ELSE Good(e.f.prod) /\ RootOK(e.f.prod[1], RDot(m, m), EpsN(n))
ChiSqOK(v, x, y, s, A, B) ==
  IF Len(x) # Len(y) \/ Len(y) # Len(s) \/ \E i \in 1..Len(s) : RLt(RAbs(s[i]), U) THEN Bad(v)
  ELSE (\A i \in 1..Len(s) : RLt(U, RAbs(s[i]))) => v[2] = 0 /\ SsqOK(v[1], x, y, Map1(LAMBDA q : RDiv(1, RSq(q)), s), A, B, 1)

NoLine == [ok |-> FALSE, A |-> "nan", B |-> "nan"]
FitTail(e, x, y, w) == /\ e.ndf = Len(x) - 2 /\ ErrOK(e.dev, x, y, e.A, e.B)
                       /\ e.chi # "nan" /\ SsqOK(e.chi, x, y, w, e.A, e.B, 1) /\ (RLe(e.chi, 2500) => ChiOK(<<e.p, 0>>, e.chi, e.ndf))
FitOK(e) ==
  LET x == e.x y == e.y n == Len(x)
      refuse == e.err # 0 /\ e.A = "nan" /\ e.B = "nan"
      w == IF e.how = "w" THEN Map1(LAMBDA q : IF REq(q, 0) THEN "1" ELSE RDiv(1, RSq(q)), e.s) ELSE Ones(n)
  IN  IF n # Len(y) \/ n < 2 \/ (e.how \in {"0", "y"} /\ n = 2) \/ (e.how = "w" /\ (Len(e.s) # n \/ \E i \in 1..n : REq(e.s[i], 0))) \/ (e.how = "y" /\ RLe(RAbs(e.s[1]), U)) THEN refuse
      ELSE IF n = 2 THEN TRUE                   \* no degree of freedom is left for the errors
      ELSE IF e.how = "xy" THEN
        LET q == Eager(Dem(x, y, e.s[1], e.s[2])) v == RAdd(q.vy, RMul(q.vx, RSq(e.B)))
        IN  IF e.A = "nan" THEN ~q.well /\ e.err # 0
            ELSE q.well => /\ e.err = 0 /\ DemOK(q, x, y, e.A, e.B) /\ e.ndf = n - 2 /\ ErrOK(e.dev, x, y, e.A, e.B)
                           /\ IF RIsNum(e.cov[1]) THEN RLe(0, e.cov[1]) => RootOK(e.sA, e.cov[1], 0) ELSE ~RIsNum(e.sA)      \* (not those of an earlier fit)
                           /\ IF RIsNum(e.cov[4]) THEN RLe(0, e.cov[4]) => RootOK(e.sB, e.cov[4], 0) ELSE ~RIsNum(e.sB)      \* (not those of an earlier fit)
                           /\ SsqOK(e.chi, x, y, [i \in 1..n |-> RDiv(1, v)], e.A, e.B, 1) /\ (RLe(e.chi, 2500) => ChiOK(<<e.p, 0>>, e.chi, e.ndf))
      ELSE LET L == Eager(Wls(x, y, w)) IN
           IF L.none THEN refuse
           ELSE L.well => /\ e.err = 0 /\ LineOK(L, e.A, e.B)
                          /\ CASE e.how = "0" -> e.ndf = n - 2 /\ ErrOK(e.dev, x, y, e.A, e.B) /\ e.sA = "nan" /\ e.sB = "nan" /\ e.chi = "nan" /\ e.p = "nan"
                               [] e.how = "y" -> /\ CovOK(L, RSq(e.s[1]), e.cov) /\ RootOK(e.sA, e.cov[1], 0) /\ RootOK(e.sB, e.cov[4], 0)
                                                 /\ FitTail(e, x, y, [i \in 1..n |-> RDiv(1, RSq(e.s[1]))])
                               [] OTHER -> CovOK(L, 1, e.cov) /\ RootOK(e.sA, e.cov[1], 0) /\ RootOK(e.sB, e.cov[4], 0) /\ FitTail(e, x, y, w)
\* the separate functions
OlsOK(e) ==
  LET x == e.x y == e.y n == Len(x) f == e.f v == RSq(e.s) IN
  IF Len(y) # n THEN Bad(f.a0) /\ Bad(f.b0) /\ Bad(f.a1) /\ Bad(f.b1) /\ Bad(f.a2) /\ Bad(f.b2) /\ Bad(f.ia) /\ Bad(f.ib) /\ Bad(f.ob) /\ Bad(f.dev)
  ELSE LET L == Eager(Wls(x, y, Ones(n))) q == RDot(x, x) IN
       /\ L.none => Bad(f.a0) /\ Bad(f.b0) /\ Bad(f.a1) /\ Bad(f.b1) /\ Bad(f.a2) /\ Bad(f.b2)
       /\ L.well => /\ \A k \in {<<f.a0, f.b0>>, <<f.a1, f.b1>>, <<f.a2, f.b2>>, <<f.ia, f.ib>>} : Good(k[1]) /\ Good(k[2]) /\ LineOK(L, k[1][1], k[2][1])
                    /\ CovOK(L, v, e.cov) /\ RootOK(f.sa[1], e.cov[1], RMul(2, L.tV)) /\ RootOK(f.sb[1], e.cov[4], RMul(2, L.tV))
                    /\ RootOK(f.fa[1], e.cov[1], RMul(2, L.tV)) /\ RootOK(f.fb[1], e.cov[4], RMul(2, L.tV))
                    /\ n > 2 => ErrOK(f.dev[1], x, y, f.a0[1], f.b0[1])
       /\ IF REq(q, 0) THEN Bad(f.ob)
          ELSE RLt(RMul(2, U), q) => /\ IsNear(f.ob, RDiv(RDot(x, y), q), RDiv(RMul(EpsN(n), Sum1(n, LAMBDA i : RAbs(RMul(x[i], y[i])))), q))
                                     /\ RootOK(f.osb[1], RDiv(v, q), EpsN(n))
WlsOK(e) ==
  LET x == e.x y == e.y w == e.w n == Len(x) f == e.f IN
  IF Len(y) # n \/ Len(w) # n THEN Bad(f.a0) /\ Bad(f.b0) /\ Bad(f.ia) /\ Bad(f.ib) /\ Bad(f.ob)
  ELSE LET L == Eager(Wls(x, y, w)) q == L.Sxx xw == [i \in 1..n |-> RMul(x[i], w[i])] IN
       /\ L.none => Bad(f.a0) /\ Bad(f.b0)
       /\ L.well => /\ \A k \in {<<f.a0, f.b0>>, <<f.ia, f.ib>>} : Good(k[1]) /\ Good(k[2]) /\ LineOK(L, k[1][1], k[2][1])
                    /\ CovOK(L, 1, e.cov)
       /\ IF REq(q, 0) THEN Bad(f.ob)
          ELSE RLt(RMul(2, U), q) => /\ IsNear(f.ob, RDiv(RDot(xw, y), q), RDiv(RMul(EpsN(n), Sum1(n, LAMBDA i : RAbs(RMul(xw[i], y[i])))), q))
                                     /\ RootOK(f.osb[1], RDiv(1, q), EpsN(n))

S0 == NoLine
SStep(s, e) ==
  CASE e.op = "data" -> DataOK(e)
    [] e.op = "pair" -> PairOK(e)
    [] e.op = "prop" -> PropSumOK(e)
    [] e.op = "gauss" -> IsNear(e.v, GaussE(e.g, e.m, e.s), RMul("1e-11", GaussT(e.g, e.m, e.s)))
    [] e.op = "zs" -> Near(e.r, RDiv(RSub(e.x, e.m), e.s), RMul(RMul(4, U), RAbs(RDiv(RSub(e.x, e.m), e.s))))
    [] e.op = "chi" -> ChiSqOK(e.v, e.y, e.x, e.s, "0", "1")
    [] e.op = "chil" -> /\ ChiSqOK(e.v, e.x, e.y, e.s, e.a, e.b)
                        /\ IF Len(e.y) <= 2 THEN Bad(e.red) ELSE (IF e.v[1] = "nan" THEN e.red[1] = "nan" ELSE Good(e.red) /\ Rel1(e.red[1], RDiv(e.v[1], Len(e.y) - 2), 2))
    [] e.op = "pv" -> IF e.n = 0 THEN Bad(e.v) ELSE ChiOK(e.v, e.x, e.n)
    [] e.op = "fit" -> FitOK(e)
    [] e.op = "val" -> IF ~s.ok THEN e.r = "nan" ELSE Near(e.r, RAdd(s.A, RMul(s.B, e.x)), RMul(RMul(4, U), RAdd(RAbs(s.A), RAbs(RMul(s.B, e.x)))))
    [] e.op = "fresh" -> e.A = "nan" /\ e.B = "nan" /\ e.sA = "nan" /\ e.sB = "nan" /\ e.chi = "nan" /\ e.p = "nan"
    [] e.op = "ols" -> OlsOK(e)
    [] e.op = "wls" -> WlsOK(e)
    [] e.op = "ep" -> IF Len(e.cov) # Len(e.x) THEN Bad(e.v) ELSE PropOK(e.v, e.p, e.x, e.cov, 0) /\ (e.dia => PropOK(e.v2, e.p, e.x, e.cov, 0))
    [] e.op = "eps" -> LET n == Len(e.xs) c == [i \in 1..n |-> [j \in 1..n |-> Cov(e.xs[i], e.xs[j], 1)]]
                       IN  /\ \A i, j \in 1..n : Near(e.cov[i][j], c[i][j], RAdd(RDiv(CovTol(e.xs[i], e.xs[j]), Len(e.xs[i]) - 1), RMul(RMul(4, U), RAbs(c[i][j]))))
                           /\ PropOK(e.v, e.p, [i \in 1..n |-> Mean(e.xs[i])], c, "1e-9")
    [] e.op = "mc" -> LET S == Eager(Tss(e.x)) IN RLe(0, e.r) /\ Near(RMul(RSq(e.r), Len(e.x) - 1), S, RAdd(TssTol(e.x, S), RMul(RMul(16, U), S)))
SNext(s, e) ==
  IF e.op = "fit" THEN [ok |-> e.A # "nan" /\ RIsNum(e.A) /\ RIsNum(e.B), A |-> e.A, B |-> e.B] ELSE IF e.op = "fresh" THEN NoLine ELSE s
=============================================================================
