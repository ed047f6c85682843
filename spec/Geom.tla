-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Matrices of geometric maps.  An interval matrix (entries <<lo, hi>>)    *)
(* encloses the exact matrix of the map; the implementation's entries must *)
(* lie within rounding of it.                                              *)
(***************************************************************************)
EXTENDS LinSys, Encl

PtM(m) == Mat(Rows(m), Cols(m), LAMBDA i, j : Pt(m[i][j]))
Block(b, n, k) == Mat(n, k, LAMBDA i, j : IF i <= Rows(b) /\ j <= Cols(b) THEN b[i][j] ELSE IF i = j THEN Pt("1") ELSE Pt("0"))
Neg1(e) == INeg(e)
Rot2(c, s) == <<<<c, INeg(s)>>, <<s, c>>>>
\* Rodrigues: c I + s [k]x + (1 - c) k k^T for a unit vector k (intervals)
Rot3(c, s, k) ==
  LET oc == ISub(Pt(1), c)
      kk(i, j) == IMul(oc, IMul(k[i], k[j]))
      sk(i) == IMul(s, k[i])
  IN Eager(<<<<IAdd(c, kk(1, 1)), ISub(kk(1, 2), sk(3)), IAdd(kk(1, 3), sk(2))>>,
             <<IAdd(kk(2, 1), sk(3)), IAdd(c, kk(2, 2)), ISub(kk(2, 3), sk(1))>>,
             <<ISub(kk(3, 1), sk(2)), IAdd(kk(3, 2), sk(1)), IAdd(c, kk(3, 3))>>>>)
Unit(a) == LET n == SqrtE(RDot(a, a)) IN [i \in 1..Len(a) |-> IDiv(Pt(a[i]), n)]
Axis(c) == CASE c = "x" -> <<"1", "0", "0">> [] c = "y" -> <<"0", "1", "0">> [] c = "z" -> <<"0", "0", "1">>
Translation(v) == LET n == Len(v) + 1 IN Mat(n, n, LAMBDA i, j : IF i = j THEN "1" ELSE IF j = n THEN v[i] ELSE "0")
Persp(l, r, b, t, n, f) ==
  << <<RDiv(RMul(2, n), RSub(r, l)), "0", RDiv(RAdd(r, l), RSub(r, l)), "0">>,
     <<"0", RDiv(RMul(2, n), RSub(t, b)), RDiv(RAdd(t, b), RSub(t, b)), "0">>,
     <<"0", "0", RNeg(RDiv(RAdd(f, n), RSub(f, n))), RNeg(RDiv(RMul(2, RMul(f, n)), RSub(f, n)))>>,
     <<"0", "0", "-1", "0">> >>
Ortho(l, r, b, t, n, f) ==
  << <<RDiv(2, RSub(r, l)), "0", "0", RNeg(RDiv(RAdd(r, l), RSub(r, l)))>>,
     <<"0", RDiv(2, RSub(t, b)), "0", RNeg(RDiv(RAdd(t, b), RSub(t, b)))>>,
     <<"0", "0", RDiv(-2, RSub(f, n)), RNeg(RDiv(RAdd(f, n), RSub(f, n)))>>,
     <<"0", "0", "0", "1">> >>
Cross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
ICross(a, b) == <<ISub(IMul(a[2], b[3]), IMul(a[3], b[2])), ISub(IMul(a[3], b[1]), IMul(a[1], b[3])), ISub(IMul(a[1], b[2]), IMul(a[2], b[1]))>>
VSub(a, b) == [i \in 1..Len(a) |-> RSub(a[i], b[i])]
IDotP(a, p) == IAdd(IAdd(IScale(p[1], a[1]), IScale(p[2], a[2])), IScale(p[3], a[3]))
LookAt(cam, tgt, up) ==
  LET d == VSub(tgt, cam)
      z == Eager(Unit(d))
      x == Eager(Unit(Cross(d, up)))
      y == Eager(ICross(x, z))
      nz == Eager([i \in 1..3 |-> INeg(z[i])])
      row(a) == <<a[1], a[2], a[3], INeg(IDotP(a, cam))>>
  IN Eager(<<row(x), row(y), row(nz), <<Pt("0"), Pt("0"), Pt("0"), Pt("1")>>>>)
\* how much the axes move under rounding of the data
LookCond(cam, tgt, up) ==
  LET d == VSub(tgt, cam) cr == Cross(d, up) n(a) == SqrtE(RDot(a, a)) IN
    RMul(RDiv(RMul(n(d)[2], n(up)[2]), n(cr)[1]), RAdd(1, RDiv(RAdd(RSumAbs(cam), RSumAbs(tgt)), n(d)[1])))
Sympl(n) == Mat(n, n, LAMBDA i, j : IF j = i + (n \div 2) THEN "1" ELSE IF i = j + (n \div 2) THEN "-1" ELSE "0")
Hilbert(n) == Mat(n, n, LAMBDA i, j : RDiv(1, i + j - 1))
Inversion(p, c, r) == LET d == VSub(p, c) k == RDiv(RMul(r, r), RDot(d, d)) IN [i \in 1..Len(p) |-> RAdd(c[i], RMul(k, d[i]))]

\* r lies within tol of the interval matrix
InM(r, m, tol) == SameShape(r, m) /\ \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : InEncl(r[i][j], m[i][j], tol)
RelM(r, m, k) == SameShape(r, m) /\ \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : Ulps(r[i][j], m[i][j], k, RAbs(m[i][j]))

TrigTol(th) == RMul("2e-15", RAdd(1, RAbs(th)))
Deg(x) == IScale(RDiv(x, 180), PiE)
Big(e, n) == e.n >= n /\ e.k >= n
Fits9(e) ==
  CASE e.op = "ident" -> TRUE
    [] e.op = "diag" -> Len(e.v) = e.n /\ Len(e.v) = e.k
    [] e.op = "trans" -> Len(e.v) + 1 = e.n
    [] e.op = "rot2" -> Big(e, 2)
    [] e.op = "rot3" -> Big(e, 3) /\ Len(e.v) >= 3 /\ ~REq(RDot(e.v, e.v), 0)
    [] e.op = "rota" -> Big(e, 3)
    [] e.op \in {"persp", "ortho", "fov"} -> Big(e, 4)
    [] e.op = "sympl" -> e.n = e.k /\ e.n % 2 = 0
    [] OTHER -> TRUE
MapOK(e) ==
  CASE e.op = "ident" -> SameM(e.r, MDiag(e.n, e.k, "1"))
    [] e.op = "diag" -> SameM(e.r, Mat(e.n, e.k, LAMBDA i, j : IF i = j THEN e.v[i] ELSE "0"))
    [] e.op = "trans" -> SameM(e.r, Translation(e.v))
    [] e.op = "rot2" -> InM(e.r, Block(Rot2(CosE(e.th), SinE(e.th)), e.n, e.k), TrigTol(e.th))
    [] e.op = "rot3" -> InM(e.r, Block(Rot3(CosE(e.th), SinE(e.th), Eager(Unit(<<e.v[1], e.v[2], e.v[3]>>))), e.n, e.k), RMul(4, TrigTol(e.th)))
    [] e.op = "rota" -> InM(e.r, Block(Rot3(CosE(e.th), SinE(e.th), Eager(Unit(Axis(e.c)))), e.n, e.k), TrigTol(e.th))
    [] e.op = "persp" -> RelM(e.r, MResize(Persp(e.p[1], e.p[2], e.p[3], e.p[4], e.p[5], e.p[6]), e.n, e.k), 8)
    [] e.op = "ortho" -> RelM(e.r, MResize(Ortho(e.p[1], e.p[2], e.p[3], e.p[4], e.p[5], e.p[6]), e.n, e.k), 8)
    [] e.op = "fov" ->      \* symmetric frustum: cot(fov/2)/aspect, cot(fov/2)
         LET h == Deg(RDiv(e.fov, 2)) ct == IDiv(ICos(h), ISin(h)) m == Persp(-1, 1, -1, 1, e.p[1], e.p[2])
             w == Mat(e.n, e.k, LAMBDA i, j : IF i = 1 /\ j = 1 THEN IScale(RDiv(1, e.asp), ct) ELSE IF i = 2 /\ j = 2 THEN ct
                                              ELSE Pt(MResize(m, e.n, e.k)[i][j]))
         IN SameShape(e.r, w) /\ \A i \in 1..e.n : \A j \in 1..e.k : InEncl(e.r[i][j], w[i][j], RMul("1e-12", IAbsMax(w[i][j])))
    [] e.op = "look" -> InM(e.r, LookAt(e.cam, e.tgt, e.up), RMul(RMul("1e-14", LookCond(e.cam, e.tgt, e.up)), RAdd(1, RSumAbs(e.cam))))
    [] e.op = "sympl" -> SameM(e.r, Sympl(e.n))
    [] e.op = "hilb" -> RelM(e.r, Hilbert(e.n), 1)
    [] e.op = "sinv" -> LET w == Inversion(e.v, e.cen, e.rad) d == VSub(e.v, e.cen) IN
           Len(e.r) = Len(w) /\ \A i \in 1..Len(w) : Near(e.r[i], w[i], RMul(RMul(16, R2Pow(-52)), RAdd(RAbs(e.cen[i]),
               RMul(RDiv(RMul(e.rad, e.rad), RDot(d, d)), RMul(RAdd(1, RDiv(RAdd(RSumAbs(e.v), RSumAbs(e.cen)), RMaxAbs(d))), RMaxAbs(d))))))
G0 == "-"
GNext(s, e) == s
GStep(s, e) == IF Fits9(e) THEN e.err = 0 /\ MapOK(e) ELSE e.err # 0 /\ ErrM(e.r)
=============================================================================
