-------------------------------- MODULE Quat --------------------------------
(***************************************************************************)
(* Quaternions <<a, b, c, d>>, phasors <<modulus, phase>> and ratios       *)
(* <<num, den>>.  The state holds one variable of each kind; compound      *)
(* assignments change it and every other operation leaves it alone.        *)
(***************************************************************************)
EXTENDS Cplx
QAdd(p, q) == [i \in 1..4 |-> RAdd(p[i], q[i])]
QSub(p, q) == [i \in 1..4 |-> RSub(p[i], q[i])]
QNeg(p) == [i \in 1..4 |-> RNeg(p[i])]
QScal(k, p) == [i \in 1..4 |-> RMul(k, p[i])]
\* Hamilton's rules: e_i e_j = sgn * e_k
HK == <<<<1, 2, 3, 4>>, <<2, 1, 4, 3>>, <<3, 4, 1, 2>>, <<4, 3, 2, 1>>>>
HS == <<<<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, -1, -1, 1>>, <<1, 1, -1, -1>>>>
QMul(p, q) == Eager([k \in 1..4 |-> RSum([i \in 1..4 |-> LET j == HK[i][k] IN RMul(HS[i][j], RMul(p[i], q[j]))])])
QMulAbs(p, q) == [k \in 1..4 |-> RSum([i \in 1..4 |-> RAbs(RMul(p[i], q[HK[i][k]]))])]
QN2(p) == RDot(p, p)
QConj(p) == <<p[1], RNeg(p[2]), RNeg(p[3]), RNeg(p[4])>>
QInv(p) == QScal(RInv(QN2(p)), QConj(p))
QDiv(p, q) == QMul(p, QInv(q))
QOf(x) == <<x, "0", "0", "0">>
QIsNum(p) == \A i \in 1..4 : RIsNum(p[i])
QRel(r, p, k) == \A i \in 1..4 : Ulps(r[i], p[i], k, RAbs(p[i]))
QNorm(r, p, k) == \A i \in 1..4 : Ulps(r[i], p[i], k, RMaxAbs(p))
QBad(r) == r[1] = "nan"
QBin(f, p, q, r, err) ==
  CASE f = "+" -> err = 0 /\ QRel(r, QAdd(p, q), 1)
    [] f = "-" -> err = 0 /\ QRel(r, QSub(p, q), 1)
    [] f = "*" -> err = 0 /\ \A i \in 1..4 : Ulps(r[i], QMul(p, q)[i], 4, QMulAbs(p, q)[i])
    [] f = "/" -> EdgeN(QN2(q)) \/ IF Zero2(QN2(q)) THEN err # 0 /\ QBad(r) ELSE err = 0 /\ QNorm(r, QDiv(p, q), 16)
QBinR(f, p, k, r, err) ==
  IF f = "/" THEN EdgeN(RAbs(k)) \/ IF Zero2(RAbs(k)) THEN err # 0 /\ QBad(r) ELSE err = 0 /\ QRel(r, QScal(RInv(k), p), 1)
  ELSE QBin(f, p, QOf(k), r, err)
Cross3(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
\* Rodrigues' formula for the rotation of v by the angle th about the direction a, with c = cos th, s = sin th
Rodr(v, a, c, s) ==
  LET n2 == RDot(a, a) n == SqrtE(n2) x == Cross3(a, v) d == RDiv(RDot(a, v), n2) IN
    Eager([i \in 1..3 |-> IAdd(IAdd(IScale(v[i], c), IMul(IDiv(Pt(x[i]), n), s)), IScale(RMul(d, a[i]), ISub(Pt(1), c)))])
\* rotation by a quaternion q: q v q^-1
QRot(q, v) == LET w == QMul(QMul(q, <<"0", v[1], v[2], v[3]>>), QInv(q)) IN <<w[2], w[3], w[4]>>
In3(r, m, t) == \A i \in 1..3 : InEncl(r[i], m[i], t)
QUn(e) ==
  CASE e.f \in {"inverse", "invert"} -> EdgeN(QN2(e.p)) \/ IF Zero2(QN2(e.p)) THEN e.err # 0 /\ QBad(e.r) ELSE e.err = 0 /\ QNorm(e.r, QInv(e.p), 4)
    [] e.f = "conj" -> e.err = 0 /\ QRel(e.r, QConj(e.p), 0)
    [] e.f = "neg" -> e.err = 0 /\ QRel(e.r, QNeg(e.p), 0)
    [] e.f = "pos" -> e.err = 0 /\ QRel(e.r, e.p, 0)
    [] e.f = "parts" -> e.err = 0 /\ QRel(e.r, e.p, 0)
AngTol(th) == RMul("4e-15", RAdd(1, RAbs(th)))

(* Phasors: the complex number represented, as an interval, and its size *)
PVal(p) == Eager(<<IScale(p[1], CosE(p[2])), IScale(p[1], SinE(p[2]))>>)
\* sums go through Cartesian form and back, products act on modulus and phase
PNum(p) == RIsNum(p[1]) /\ RIsNum(p[2])
KNear(a, b, t) == LET d(i) == ISub(a[i], b[i]) IN RLe(IAbsMax(d(1)), t) /\ RLe(IAbsMax(d(2)), t)
PAdd(p, q, r, sg) == PNum(r) /\ RLe(0, r[1])
  /\ LET w == KAdd(PVal(p), IF sg = 1 THEN PVal(q) ELSE KNeg(PVal(q))) IN
     KNear(PVal(r), w, RMul(RAdd(AtanAcc, RMul("1e-15", RAdd(RAbs(p[2]), RAbs(q[2])))), RAdd(RAbs(p[1]), RAbs(q[1]))))
PBin(f, p, q, r, err) ==
  CASE f = "+" -> err = 0 /\ PAdd(p, q, r, 1)
    [] f = "-" -> err = 0 /\ PAdd(p, q, r, -1)
    [] f = "*" -> err = 0 /\ PNum(r) /\ Ulps(r[1], RMul(p[1], q[1]), 1, RAbs(RMul(p[1], q[1]))) /\ Ulps(r[2], RAdd(p[2], q[2]), 1, RAdd(1, RAbs(RAdd(p[2], q[2]))))
    [] f = "/" -> EdgeN(RAbs(q[1])) \/ IF Zero2(RAbs(q[1])) THEN err # 0 /\ r[1] = "nan" /\ r[2] = "nan"
                  ELSE err = 0 /\ PNum(r) /\ Ulps(r[1], RDiv(p[1], q[1]), 1, RAbs(RDiv(p[1], q[1]))) /\ Ulps(r[2], RSub(p[2], q[2]), 1, RAdd(1, RAbs(RSub(p[2], q[2]))))
\* the phasor of the complex number z, and back
POfC(r, z) == PNum(r) /\ RLe(0, r[1]) /\ LET n == SqrtE(CMod2(z)) IN InEncl(r[1], n, RMul(RMul(4, U), n[2])) /\ InEncl(r[2], Arg(z), AtanAcc)
PUn(e) ==
  CASE e.f \in {"inverse", "invert"} -> EdgeN(e.p[1]) \/ IF Zero2(e.p[1]) THEN e.err # 0 /\ e.r[1] = "nan" ELSE e.err = 0 /\ Ulps(e.r[1], RInv(e.p[1]), 1, RInv(e.p[1])) /\ REq(e.r[2], RNeg(e.p[2]))
    [] e.f = "conj" -> e.err = 0 /\ REq(e.r[1], e.p[1]) /\ REq(e.r[2], RNeg(e.p[2]))
    [] e.f = "tocx" -> e.err = 0 /\ KIn(e.r, PVal(e.p), RMul(RMul("1e-15", RAdd(1, RAbs(e.p[2]))), RAbs(e.p[1])))
    [] e.f = "normarg" -> e.err = 0 /\ REq(e.r[1], e.p[1]) /\ REq(e.r[2], e.p[2]) /\ Ulps(e.n2, RSq(e.p[1]), 1, RSq(e.p[1]))

(* Ratios of integers: exact *)
FVal(q) == RDiv(q[1], q[2])
FSame(r, x) == RIsNum(FVal(r)) /\ REq(FVal(r), x)

Start12 == [q |-> <<"0", "0", "0", "0">>, p |-> <<"0", "0">>]
SameS(a, b) == \A i \in 1..Len(b) : a[i] = b[i] \/ (RIsNum(a[i]) /\ RIsNum(b[i]) /\ REq(a[i], b[i]))
QStep(s, e) ==
  CASE e.op = "qset" -> SameS(e.r, e.p)
    [] e.op = "qasg" -> IF QIsNum(s.q) THEN QBin(e.f, s.q, e.q, e.r, e.err) ELSE e.r[1] = "nan"
    [] e.op = "qasgr" -> IF QIsNum(s.q) THEN QBinR(e.f, s.q, e.k, e.r, e.err) ELSE e.r[1] = "nan"
    [] e.op = "qinv" -> IF QIsNum(s.q) THEN QUn([f |-> "invert", p |-> s.q, r |-> e.r, err |-> e.err]) ELSE e.r[1] = "nan"
    [] e.op = "qbin" -> QBin(e.f, e.p, e.q, e.r, e.err) /\ SameS(e.cur, s.q)
    [] e.op = "qbinr" -> QBinR(e.f, e.p, e.k, e.r, e.err) /\ SameS(e.cur, s.q)
    [] e.op = "rqbin" -> QBin(e.f, QOf(e.k), e.p, e.r, e.err) /\ SameS(e.cur, s.q)
    [] e.op = "qun" -> QUn(e)
    [] e.op = "qnorm" -> LET n == SqrtE(QN2(e.p)) IN Ulps(e.n2, QN2(e.p), 4, QN2(e.p)) /\ InEncl(e.r, n, RMul(RMul(4, U), n[2]))
    [] e.op = "qrotation" -> IF Len(e.ax) # 3 THEN e.err # 0 /\ QBad(e.r)
         ELSE e.err = 0 /\ LET h == RDiv(e.th, 2) n == SqrtE(RDot(e.ax, e.ax)) IN
              InEncl(e.r[1], CosE(h), AngTol(h)) /\ \A i \in 1..3 : InEncl(e.r[i + 1], IMul(SinE(h), IDiv(Pt(e.ax[i]), n)), AngTol(h))
    [] e.op = "qrotate" -> IF Len(e.ax) # 3 \/ Len(e.v) # 3 THEN e.err # 0 /\ e.r[1] = "nan"
         ELSE e.err = 0 /\ In3(e.r, Rodr(e.v, e.ax, CosE(e.th), SinE(e.th)), RMul(RMul(4, AngTol(e.th)), RSumAbs(e.v)))
    [] e.op = "qtrans" -> IF Len(e.v) # 3 THEN e.err # 0 /\ e.r[1] = "nan"
         ELSE e.err = 0 /\ LET w == QRot(e.p, e.v) IN \A i \in 1..3 : Ulps(e.r[i], w[i], 32, RSumAbs(e.v))
    [] e.op = "pset" -> SameS(e.r, e.p)
    [] e.op = "pofc" -> e.err = 0 /\ POfC(e.r, e.z)
    [] e.op = "pasg" -> IF PNum(s.p) THEN PBin(e.f, s.p, e.q, e.r, e.err) ELSE e.r[1] = "nan"
    [] e.op = "pinv" -> IF PNum(s.p) THEN PUn([f |-> "invert", p |-> s.p, r |-> e.r, err |-> e.err]) ELSE e.r[1] = "nan"
    [] e.op = "pbin" -> PBin(e.f, e.p, e.q, e.r, e.err) /\ SameS(e.cur, s.p)
    [] e.op = "rpbin" -> LET w == <<RAbs(e.k), IF RLe(0, e.k) THEN "0" ELSE PiMid>> IN
          (CASE e.f \in {"+", "-"} -> e.err = 0 /\ PAdd(w, e.p, e.r, IF e.f = "+" THEN 1 ELSE -1)
             [] e.f = "*" -> e.err = 0 /\ KNear(PVal(e.r), KMul(PVal(w), PVal(e.p)), RMul("1e-14", RMul(w[1], RAdd(1, RAbs(e.p[1])))))
             [] e.f = "/" -> EdgeN(RAbs(e.p[1])) \/ IF Zero2(RAbs(e.p[1])) THEN e.err # 0 /\ e.r[1] = "nan"
                             ELSE e.err = 0 /\ KNear(PVal(e.r), KDiv(PVal(w), PVal(e.p)), RMul("1e-14", RDiv(w[1], RAbs(e.p[1])))))
    [] e.op = "cpbin" -> e.err = 0 /\ KNear(PVal(e.r), KMul(KPt(e.z), PVal(e.p)), RMul(RMul(2, AtanAcc), RMul(CAbs1(e.z), RAbs(e.p[1]))))
    [] e.op = "pun" -> PUn(e)
    [] e.op = "peq" -> e.eq = (REq(e.p[1], e.q[1]) /\ REq(e.p[2], e.q[2])) /\ e.ne = ~e.eq
    [] e.op = "ratio" ->
         (CASE e.f = "+" -> FSame(e.r, RAdd(FVal(e.p), FVal(e.q))) [] e.f = "-" -> FSame(e.r, RSub(FVal(e.p), FVal(e.q)))
            [] e.f = "*" -> FSame(e.r, RMul(FVal(e.p), FVal(e.q))) [] e.f = "/" -> REq(e.q[1], 0) \/ FSame(e.r, RDiv(FVal(e.p), FVal(e.q)))
            [] e.f = "*k" -> FSame(e.r, RMul(FVal(e.p), e.q[1])) [] e.f = "/k" -> FSame(e.r, RDiv(FVal(e.p), e.q[2])))
         /\ LET x == FVal(e.r) IN RIsNum(x) => Ulps(e.v, x, 1, RAbs(x))      \* value as a real number
QNext(s, e) ==
  CASE e.op \in {"qset", "qasg", "qasgr", "qinv"} -> [s EXCEPT !.q = e.r]
    [] e.op \in {"pset", "pasg", "pinv", "pofc"} -> [s EXCEPT !.p = e.r]
    [] OTHER -> s
=============================================================================
