-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Norms and distances by their definitions, over the rationals.  A vector *)
(* is a sequence of numbers, or of pairs <<re, im>> when it is complex.    *)
(* Roots are compared by their powers, so no approximation enters.         *)
(***************************************************************************)
EXTENDS Encl
Cardinal(S) == LET RECURSIVE c(_)  c(T) == IF T = {} THEN 0 ELSE 1 + c(T \ {CHOOSE x \in T : TRUE}) IN c(S)
Diff(v, w) == Eager([i \in 1..Len(v) |-> RSub(v[i], w[i])])
CDiff(v, w) == Eager([i \in 1..Len(v) |-> <<RSub(v[i][1], w[i][1]), RSub(v[i][2], w[i][2])>>])
N1(v) == RSumAbs(v)
N2Sq(v) == RDot(v, v)
NpP(v, p) == RSum([i \in 1..Len(v) |-> RPow(RAbs(v[i]), p)])      \* p-th power of the p-norm
NInf(v) == RMaxAbs(v)
CMod2(z) == RAdd(RSq(z[1]), RSq(z[2]))
CN2Sq(v) == RSum([i \in 1..Len(v) |-> CMod2(v[i])])
CN1(v) == LET e == Eager([i \in 1..Len(v) |-> SqrtE(CMod2(v[i]))])
          IN <<RSum([i \in 1..Len(v) |-> e[i][1]]), RSum([i \in 1..Len(v) |-> e[i][2]])>>
CNInf2(v) == RMaxAbs([i \in 1..Len(v) |-> CMod2(v[i])])
Canb(v, w) == RSum([i \in 1..Len(v) |-> IF REq(v[i], 0) /\ REq(w[i], 0) THEN "0"
                                         ELSE RDiv(RAbs(RSub(v[i], w[i])), RAdd(RAbs(v[i]), RAbs(w[i])))])
Far(v, w, t) == {i \in 1..Len(v) : RLt(t, RAbs(RSub(v[i], w[i])))}
\* pairs too close to the tolerance to be decided after rounding
Edge(v, w, t) == \E i \in 1..Len(v) : LET d == RAbs(RSub(v[i], w[i])) IN ~REq(d, t) /\ ~REq(d, 0) /\ RLe(RAbs(RSub(d, t)), RMul(R2Pow(-50), t))
Cosine(v, w) == ISub(Pt(1), IDiv(Pt(RDot(v, w)), SqrtE(RMul(N2Sq(v), N2Sq(w)))))

\* r >= 0 with r^p = s up to the relative error tol of r
RootIs(r, s, p, tol) == RIsNum(r) /\ RLe(0, r) /\ RLe(RAbs(RSub(RPow(r, p), s)), RMul(RMul(RMul(p, "1.01"), tol), s))
Rel(r, x, tol) == Near(r, x, RMul(tol, RAbs(x)))
Tol(n) == RMul(RAdd(n, 6), R2Pow(-52))
TolP == "1e-9"      \* cubic and higher roots are iterated to this accuracy
NormOK(k, v, p, r) ==
  CASE k = "l1" -> Rel(r, N1(v), Tol(Len(v)))
    [] k = "l2" -> RootIs(r, N2Sq(v), 2, Tol(Len(v)))
    [] k = "linf" -> REq(r, NInf(v))
    [] k = "lp" -> RootIs(r, NpP(v, p), p, RMul(RAdd(p, 2), TolP))
CNormOK(k, v, r) ==
  CASE k = "l1" -> InEncl(r, CN1(v), RMul(Tol(Len(v)), CN1(v)[2]))
    [] k = "l2" -> RootIs(r, CN2Sq(v), 2, Tol(Len(v)))
    [] k = "linf" -> RootIs(r, CNInf2(v), 2, Tol(2))
DistOK(e) ==
  LET v == e.v w == e.w d == Diff(v, w) n == Len(v) r == e.r IN
  CASE e.k = "euclid" -> RootIs(r, N2Sq(d), 2, Tol(n))
    [] e.k = "mink" -> RootIs(r, NpP(d, e.p), e.p, RMul(RAdd(e.p, 2), TolP))
    [] e.k = "manh" -> Rel(r, N1(d), Tol(n))
    [] e.k = "cheb" -> Rel(r, NInf(d), R2Pow(-52))
    [] e.k = "discr" -> Edge(v, w, e.t) \/ REq(r, IF Far(v, w, e.t) = {} THEN 0 ELSE 1)
    [] e.k = "canb" -> Rel(r, Canb(v, w), Tol(n))
    [] e.k = "cos" -> InEncl(r, Cosine(v, w), RMul(RMul(2, Tol(n)), RAdd(1, RDiv(RDotAbs(v, w), SqrtE(RMul(N2Sq(v), N2Sq(w)))[1]))))
    [] e.k = "hamm" -> Edge(v, w, e.t) \/ LET f == Far(v, w, e.t) IN REq(r, Cardinal(f))
CDistOK(e) == LET d == CDiff(e.v, e.w) IN
  CASE e.k = "herm" -> RootIs(e.r[1], CN2Sq(d), 2, Tol(Len(d))) /\ RIsNum(e.r[2]) /\ RLe(RAbs(e.r[2]), RMul("1e-15", e.r[1]))
    [] e.k = "euclid" -> RootIs(e.r[1], CN2Sq(d), 2, Tol(Len(d))) /\ REq(e.r[2], 0)
DStep(s, e) ==
  CASE e.op = "norm" -> e.err = 0 /\ NormOK(e.k, e.v, e.p, e.r)
    [] e.op = "cnorm" -> e.err = 0 /\ CNormOK(e.k, e.v, e.r)
    [] e.op = "dist" -> IF Len(e.v) # Len(e.w) THEN e.err # 0 /\ e.r = "nan" /\ e.r2 = "nan"
                        ELSE e.err = 0 /\ DistOK(e) /\ e.r2 = e.r        \* symmetric, to the last bit
    [] e.op = "cdist" -> IF Len(e.v) # Len(e.w) THEN e.err # 0 /\ e.r[1] = "nan" ELSE e.err = 0 /\ CDistOK(e)
D0 == "-"
DNext(s, e) == s
=============================================================================
