------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation.  Exact rational interpolants: linear, smooth steps,      *)
(* Bezier curves in Bernstein form, the interpolating polynomial by its    *)
(* values, and the natural cubic spline by the conditions that define it   *)
(* (through the data, value and two derivatives continuous at the inner    *)
(* nodes, no second derivative at the ends), each up to the rounding of    *)
(* the magnitudes that enter it.                                           *)
(***************************************************************************)
EXTENDS Cplx, Poly

K(k, m) == RMul(RMul(k, U), m)
AllNum(v) == \A i \in 1..Len(v) : RIsNum(v[i])
AllNan(v) == \A i \in 1..Len(v) : v[i] = "nan"

(***************************** elementary **********************************)
Lerp(a, b, t) == RAdd(a, RMul(t, RSub(b, a)))
LerpMag(a, b, t) == RAdd(RAbs(a), RMul(RAbs(t), RAdd(RAbs(a), RAbs(b))))
\* a point of the segment for t in [0, 1]
Between(r, a, b, w) == RLe(RSub(RMin(a, b), w), r) /\ RLe(r, RAdd(RMax(a, b), w))
LerpOK(a, b, t, r) == /\ Near(r, Lerp(a, b, t), K(4, LerpMag(a, b, t)))
                      /\ REq(t, 0) => REq(r, a)
                      /\ (RLe(0, t) /\ RLe(t, 1)) => Between(r, a, b, K(2, RMax(RAbs(a), RAbs(b))))
Inv(a, b, v) == RDiv(RSub(v, a), RSub(b, a))
InvOK(a, b, v, r) == Near(r, Inv(a, b, v), K(4, RAbs(Inv(a, b, v))))
RemapOK(e) == LET t == Inv(e.x[1], e.x[2], e.t) IN Near(e.r, Lerp(e.x[3], e.x[4], t), K(8, LerpMag(e.x[3], e.x[4], t)))
Smooth(k, x) == IF k = 1 THEN RMul(RSq(x), RSub(3, RMul(2, x)))
                ELSE RMul(RPow(x, 3), RAdd(RMul(x, RSub(RMul(6, x), 15)), 10))
SmoothOK(e) ==
  IF REq(e.x[1], e.x[2]) THEN e.err # 0 /\ e.r = "nan"
  ELSE LET x == RMax(0, RMin(1, Inv(e.x[1], e.x[2], e.t))) y == Smooth(e.k, x)
       IN  /\ e.err = 0 /\ Near(e.r, y, RAdd(K(48, RPow(x, e.k + 1)), K(4, y)))
           /\ Between(e.r, 0, 1, K(8, 1))
           /\ (REq(x, 0) => REq(e.r, 0)) /\ (REq(x, 1) => REq(e.r, 1))
VecLerpOK(e) == Len(e.r) = Len(e.p) /\ e.err = 0 /\ \A i \in 1..Len(e.p) : LerpOK(e.p[i], e.q[i], e.t, e.r[i])
\* the direction of the interpolated vector, with unit norm; e.acc is the accuracy of the square root in this build
NlerpOK(e) ==
  LET v == Eager([i \in 1..Len(e.p) |-> Lerp(e.p[i], e.q[i], e.t)])
      m == Eager(RMaxAbs([i \in 1..Len(e.p) |-> LerpMag(e.p[i], e.q[i], e.t)]))
      n == SqrtE(RDot(v, v))
  IN  RLt(RMul("1e-3", m), n[1]) =>
        /\ Len(e.r) = Len(v) /\ e.err = 0 /\ AllNum(e.r)
        /\ \A i \in 1..Len(v) : InEncl(e.r[i], IDiv(Pt(v[i]), n), RAdd(RDiv(K(32, m), n[1]), e.acc))
\* e.w is the angle between the two vectors, e.c the accuracy with which the vectors have it
SlerpOK(e) ==
  IF REq(RDot(e.p, e.p), 0) \/ REq(RDot(e.q, e.q), 0) THEN e.err # 0 /\ AllNan(e.r)
  ELSE LET s == SinE(e.w)
           A == SinE(RMul(RSub(1, e.t), e.w)) B == SinE(RMul(e.t, e.w))
           mag == RAdd(RMaxAbs(e.p), RMaxAbs(e.q))
       IN  /\ e.err = 0 /\ Len(e.r) = Len(e.p)
           /\ \A i \in 1..Len(e.p) : InEncl(e.r[i], IDiv(IAdd(IScale(e.p[i], A), IScale(e.q[i], B)), s), RMul(RMul("2e-7", mag), RDiv(RAdd(1, RAbs(e.t)), RMul(s[1], s[1]))))

(******************************* Bezier ************************************)
RBinom(n, k) == RDiv(RProd([i \in 1..k |-> n - k + i]), RProd([i \in 1..k |-> i]))
Bern(n, k, t) == RMul(RBinom(n, k), RMul(IF k = 0 THEN 1 ELSE RPow(t, k), IF k = n THEN 1 ELSE RPow(RSub(1, t), n - k)))
Bezier(P, t, j) == RSum([k \in 1..Len(P) |-> RMul(Bern(Len(P) - 1, k - 1, t), P[k][j])])
BezMag(P, t, j) == RMul(RPow(RAdd(1, RMul(2, RAbs(t))), Len(P) - 1), RMaxAbs([k \in 1..Len(P) |-> P[k][j]]))
BezierOK(e) ==
  IF e.m = "gen" /\ (Len(e.P) < 2 \/ RLt(e.t, 0) \/ RLt(1, e.t)) THEN e.err # 0 /\ AllNan(e.r)
  ELSE /\ e.err = 0 /\ Len(e.r) = Len(e.P[1])
       /\ \A j \in 1..Len(e.r) :
            LET c == [k \in 1..Len(e.P) |-> e.P[k][j]] inside == RLe(0, e.t) /\ RLe(e.t, 1)
                mx == RMaxAbs(c)
            IN  /\ Near(e.r[j], Bezier(e.P, e.t, j), IF inside THEN K(8 * Len(e.P), mx) ELSE K(8 * Len(e.P), BezMag(e.P, e.t, j)))
                /\ REq(e.t, 0) => REq(e.r[j], c[1])
                /\ inside => \E k, l \in 1..Len(c) : Between(e.r[j], c[k], c[l], K(4 * Len(c), mx))

(********************** interpolating polynomials **************************)
LagMag(P, x) ==
  LET n == Len(P)
  IN  RSum([j \in 1..n |-> RMul(RAbs(P[j][2]), RProd([m \in 1..n |-> IF m = j THEN "1" ELSE RDiv(RAdd(RAbs(x), RAbs(P[m][1])), RAbs(RSub(P[j][1], P[m][1])))]))])
LagVal(P, x) ==
  LET n == Len(P)
  IN  RSum([j \in 1..n |-> RMul(P[j][2], RProd([m \in 1..n |-> IF m = j THEN "1" ELSE RDiv(RSub(x, P[m][1]), RSub(P[j][1], P[m][1]))]))])
Distinct(P) == \A i, j \in 1..Len(P) : i # j => ~REq(P[i][1], P[j][1])
\* coefficients r: right values at every node and at Len(P) points next to them, and no higher degree
LagOK(P, r) ==
  LET z(k) == RAdd(P[k][1], IF Len(P) = 1 THEN "1" ELSE RDiv(RSub(P[(k % Len(P)) + 1][1], P[k][1]), 3))
  IN  /\ AllNum(r) /\ (\A i \in 1..Len(r) : i > Len(P) => REq(r[i], 0))
      /\ \A k \in 1..Len(P) : /\ Near(YVal(r, P[k][1]), P[k][2], K(16 * Len(P), LagMag(P, P[k][1])))
                              /\ Near(YVal(r, z(k)), LagVal(P, z(k)), K(16 * Len(P), LagMag(P, z(k))))
LagrangeOK(e) == IF Len(e.P) = 0 \/ ~Distinct(e.P) THEN e.err # 0 /\ \E i \in 1..Len(e.r) : ~RIsNum(e.r[i])
                 ELSE e.err = 0 /\ LagOK(e.P, e.r)
\* nodes of [a, b]: the i-th of n is the middle plus half the width times cos((2i - 1) pi / (2n))
ChebOK(a, b, n, x) ==
  Len(x) = n /\ \A i \in 1..n :
    InEncl(x[i], IAdd(Pt(RDiv(RAdd(a, b), 2)), IScale(RDiv(RSub(b, a), 2), ICos(IScale(RDiv(2 * i - 1, 2 * n), PiE)))), K(16, RMax(RAbs(a), RAbs(b))))
\* interpolation of a function: the points are the calls it made
GridOK(e) ==
  /\ e.err = 0 /\ Len(e.calls) = e.n + 1
  /\ IF e.m = "cheb" THEN ChebOK(e.a, e.b, e.n + 1, [i \in 1..Len(e.calls) |-> e.calls[i][1]])
     ELSE IF e.n = 0 THEN Between(e.calls[1][1], e.a, e.b, 0)
     ELSE \A i \in 1..(e.n + 1) : Near(e.calls[i][1], RAdd(e.a, RMul(RDiv(RSub(e.b, e.a), e.n), i - 1)), K(8, RMax(RAbs(e.a), RAbs(e.b))))
  /\ LagOK(e.calls, e.r)

(******************************* splines ***********************************)
\* a node is <<x, a, b, c, d>>
SVal(nd, X) == LET h == RSub(X, nd[1]) IN RAdd(nd[2], RMul(h, RAdd(nd[3], RMul(h, RAdd(nd[4], RMul(h, nd[5]))))))
SDer(nd, X) == LET h == RSub(X, nd[1]) IN RAdd(nd[3], RMul(h, RAdd(RMul(2, nd[4]), RMul(3, RMul(h, nd[5])))))
SDer2(nd, X) == LET h == RSub(X, nd[1]) IN RAdd(RMul(2, nd[4]), RMul(6, RMul(h, nd[5])))
NAbs(nd) == <<nd[1], RAbs(nd[2]), RAbs(nd[3]), RAbs(nd[4]), RAbs(nd[5])>>
\* magnitudes: the same sums with absolute values
MagV(nd, X) == SVal(NAbs(nd), RAdd(nd[1], RAbs(RSub(X, nd[1]))))
MagD(nd, X) == SDer(NAbs(nd), RAdd(nd[1], RAbs(RSub(X, nd[1]))))
SplineOK(x, y, N) ==
  LET n == Len(x) - 1
      h(i) == RSub(x[i + 1], x[i])
      slope(i) == RDiv(RAdd(RAbs(y[i]), RAbs(y[i + 1])), h(i))
      \* scale of the second derivatives entering row i
      cm == Eager([i \in 1..n |-> RMax(RAbs(N[i][4]), IF i < n THEN RAbs(N[i + 1][4]) ELSE "0")])
      md(i) == RAdd(slope(i), RMul(RMul(4, h(i)), cm[i]))
  IN  /\ Len(N) = n
      /\ \A i \in 1..n : AllNum(N[i]) /\ REq(N[i][1], x[i]) /\ REq(N[i][2], y[i])
      /\ \A i \in 1..n : Near(SVal(N[i], x[i + 1]), y[i + 1], RAdd(K(32, RAdd(RAbs(y[i]), RAbs(y[i + 1]))), K(32, RMul(h(i), md(i)))))
      /\ \A i \in 1..(n - 1) : /\ Near(SDer(N[i], x[i + 1]), N[i + 1][3], K(64, RAdd(md(i), md(i + 1))))
                               /\ Near(RDiv(SDer2(N[i], x[i + 1]), 2), N[i + 1][4], K(16, cm[i]))
      /\ Near(N[1][4], 0, K(64, cm[1])) /\ Near(SDer2(N[n], x[n + 1]), 0, K(64, cm[n]))
\* the pieces that may give the value at X: the one containing it, two at a node
Pieces(N, X) == {i \in 1..Len(N) : (i = 1 \/ RLe(N[i][1], X)) /\ (i = Len(N) \/ RLe(X, N[i + 1][1]) )}
EvalOK(N, X, r, d) == \E i \in Pieces(N, X) :
  /\ Near(r, SVal(N[i], X), K(16, MagV(N[i], X)))
  /\ \E j \in Pieces(N, X) : Near(d, SDer(N[j], X), K(16, MagD(N[j], X)))
SplinesOK(e) ==
  IF Len(e.x) < 2 \/ Len(e.x) # Len(e.y) THEN e.err # 0 /\ Len(e.N) = 1 /\ AllNan(e.N[1])
  ELSE /\ e.err = 0 /\ SplineOK(e.x, e.y, e.N)
       /\ \A k \in 1..Len(e.at) : EvalOK(e.N, e.at[k], e.val[k], e.der[k])

I0 == 0
IStep(s, e) ==
  CASE e.op = "lerp" -> e.err = 0 /\ LerpOK(e.x[1], e.x[2], e.t, e.r)
    [] e.op = "invlerp" -> e.err = 0 /\ InvOK(e.x[1], e.x[2], e.t, e.r)
    [] e.op = "remap" -> e.err = 0 /\ RemapOK(e)
    [] e.op = "smooth" -> SmoothOK(e)
    [] e.op = "vlerp" -> VecLerpOK(e)
    [] e.op = "nlerp" -> NlerpOK(e)
    [] e.op = "slerp" -> SlerpOK(e)
    [] e.op = "vremap" -> e.err = 0 /\ \A i \in 1..Len(e.r) : LET t == Inv(e.p[i], e.q[i], e.t) IN Near(e.r[i], Lerp(e.u[i], e.v[i], t), K(8, LerpMag(e.u[i], e.v[i], t)))
    [] e.op = "vinv" -> IF e.same THEN e.err = 0 /\ InvOK(e.p[1], e.q[1], e.t, e.r) ELSE e.err # 0 /\ e.r = "nan"
    [] e.op = "bezier" -> BezierOK(e)
    [] e.op = "lagrange" -> LagrangeOK(e)
    [] e.op = "cheb" -> e.err = 0 /\ ChebOK(e.a, e.b, e.n, e.r)
    [] e.op = "grid" -> GridOK(e)
    [] e.op = "spline" -> SplinesOK(e)
INext(s, e) == s
=============================================================================
