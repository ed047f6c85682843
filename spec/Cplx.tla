-------------------------------- MODULE Cplx --------------------------------
(***************************************************************************)
(* Complex numbers <<re, im>> over the rationals, enclosures of the        *)
(* complex functions, and the machine of a complex variable under a        *)
(* history of compound assignments.                                        *)
(***************************************************************************)
EXTENDS Encl
CAdd(z, w) == <<RAdd(z[1], w[1]), RAdd(z[2], w[2])>>
CNeg(z) == <<RNeg(z[1]), RNeg(z[2])>>
CSub(z, w) == CAdd(z, CNeg(w))
CMul(z, w) == <<RSub(RMul(z[1], w[1]), RMul(z[2], w[2])), RAdd(RMul(z[1], w[2]), RMul(z[2], w[1]))>>
CConj(z) == <<z[1], RNeg(z[2])>>
CMod2(z) == RAdd(RSq(z[1]), RSq(z[2]))
CScal(k, z) == <<RMul(k, z[1]), RMul(k, z[2])>>
CInv(z) == CScal(RInv(CMod2(z)), CConj(z))
CDiv(z, w) == CMul(z, CInv(w))
CEq(z, w) == REq(z[1], w[1]) /\ REq(z[2], w[2])
COf(x) == <<x, "0">>
CAbs1(z) == RAdd(RAbs(z[1]), RAbs(z[2]))                 \* |.|_1, between |z| and sqrt 2 |z|
CIsNum(z) == RIsNum(z[1]) /\ RIsNum(z[2])
CNear(r, z, t) == Near(r[1], z[1], t) /\ Near(r[2], z[2], t)

(* complex intervals: pairs of intervals *)
KPt(z) == <<Pt(z[1]), Pt(z[2])>>
KAdd(a, b) == <<IAdd(a[1], b[1]), IAdd(a[2], b[2])>>
KNeg(a) == <<INeg(a[1]), INeg(a[2])>>
KMul(a, b) == <<ISub(IMul(a[1], b[1]), IMul(a[2], b[2])), IAdd(IMul(a[1], b[2]), IMul(a[2], b[1]))>>
KDiv(a, b) == LET n == IAdd(IMul(b[1], b[1]), IMul(b[2], b[2])) p == KMul(a, <<b[1], INeg(b[2])>>) IN <<IDiv(p[1], n), IDiv(p[2], n)>>
KAbs1(a) == RAdd(IAbsMax(a[1]), IAbsMax(a[2]))
KIn(r, a, t) == InEncl(r[1], a[1], t) /\ InEncl(r[2], a[2], t)
Cosh(x) == IScale("1/2", IAdd(ExpE(x), ExpE(RNeg(x))))
Sinh(x) == IScale("1/2", ISub(ExpE(x), ExpE(RNeg(x))))
KExp(z) == LET m == ExpE(z[1]) IN Eager(<<IMul(m, CosE(z[2])), IMul(m, SinE(z[2]))>>)
KSin(z) == Eager(<<IMul(SinE(z[1]), Cosh(z[2])), IMul(CosE(z[1]), Sinh(z[2]))>>)
KCos(z) == Eager(<<IMul(CosE(z[1]), Cosh(z[2])), INeg(IMul(SinE(z[1]), Sinh(z[2])))>>)
KTan(z) == KDiv(KSin(z), KCos(z))
Arg(z) == IF REq(z[2], 0) THEN (IF RLe(0, z[1]) THEN Pt("0") ELSE PiE) ELSE Atan2E(z[2], z[1])
KLn(z) == <<IScale("1/2", LnE(CMod2(z))), Arg(z)>>

(************************* acceptance of results ***************************)
U == R2Pow(-52)
RelC(r, z, k) == CIsNum(r) /\ CNear(r, z, RMul(RMul(k, U), CAbs1(z)))
Rel1(r, x, k) == Ulps(r, x, k, RAbs(x))
\* componentwise, a product's rounding is relative to the terms
MulTol(r, z, w) == /\ Ulps(r[1], CMul(z, w)[1], 2, RAdd(RAbs(RMul(z[1], w[1])), RAbs(RMul(z[2], w[2]))))
                   /\ Ulps(r[2], CMul(z, w)[2], 2, RAdd(RAbs(RMul(z[1], w[2])), RAbs(RMul(z[2], w[1]))))
Zero2(n) == RLt(n, U)                  \* counts as division by zero: n below the machine epsilon
EdgeN(n) == RLe(RAbs(RSub(n, U)), RMul("1e-10", U))
SameC(a, b) == a = b \/ (CIsNum(a) /\ CIsNum(b) /\ CEq(a, b))
CBad(r) == r[1] = "nan" /\ r[2] = "nan"
\* the result of an operation on two numbers with the error flag err
BinOK(f, z, w, r, err) ==
  CASE f = "+" -> err = 0 /\ Rel1(r[1], CAdd(z, w)[1], 1) /\ Rel1(r[2], CAdd(z, w)[2], 1)
    [] f = "-" -> err = 0 /\ Rel1(r[1], CSub(z, w)[1], 1) /\ Rel1(r[2], CSub(z, w)[2], 1)
    [] f = "*" -> err = 0 /\ MulTol(r, z, w)
    [] f = "/" -> EdgeN(CMod2(w)) \/ IF Zero2(CMod2(w)) THEN err # 0 /\ CBad(r) ELSE err = 0 /\ RelC(r, CDiv(z, w), 8)
\* the divisor is a real number
BinROK(f, z, k, r, err) ==
  IF f = "/" THEN EdgeN(RAbs(k)) \/ IF Zero2(RAbs(k)) THEN err # 0 /\ CBad(r) ELSE err = 0 /\ Rel1(r[1], RDiv(z[1], k), 1) /\ Rel1(r[2], RDiv(z[2], k), 1)
  ELSE BinOK(f, z, COf(k), r, err)
FunTol(z) == RMul("1e-14", RAdd(1, CAbs1(z)))
UnOK(f, z, r, err) ==
  CASE f \in {"inverse", "finverse", "invert"} -> EdgeN(CMod2(z)) \/ IF Zero2(CMod2(z)) THEN err # 0 /\ CBad(r) ELSE err = 0 /\ RelC(r, CInv(z), 4)
    [] f = "conj" -> err = 0 /\ CEq(r, CConj(z))
    [] f = "neg" -> err = 0 /\ CEq(r, CNeg(z))
    [] f = "id" -> err = 0 /\ CEq(r, z)
    [] f = "square" -> err = 0 /\ RelC(r, CMul(z, z), 4)
    [] f = "cube" -> err = 0 /\ RelC(r, CMul(z, CMul(z, z)), 12)
    [] f = "sqrt" -> err = 0 /\ CIsNum(r) /\ RelC(CMul(r, r), z, 16) /\ RLe(0, r[1]) /\ (REq(r[1], 0) => RLe(0, r[2]))
                     /\ (RLt(0, z[2]) => RLe(0, r[2])) /\ (RLt(z[2], 0) => RLe(r[2], 0))
    [] f = "exp" -> LET w == KExp(z) IN err = 0 /\ KIn(r, w, RMul(FunTol(z), KAbs1(w)))
    [] f = "sin" -> err = 0 /\ KIn(r, KSin(z), RMul(FunTol(z), Cosh(z[2])[2]))
    [] f = "cos" -> err = 0 /\ KIn(r, KCos(z), RMul(FunTol(z), Cosh(z[2])[2]))
    [] f = "tan" -> LET w == KTan(z) IN err = 0 /\ KIn(r, w, RMul(RMul(8, FunTol(z)), RMul(RAdd(1, RSq(KAbs1(w))), RMax(1, ExpE(RMul(-2, z[2]))[2]))))
    [] f = "ln" -> LET w == KLn(z) IN err = 0 /\ InEncl(r[1], w[1], RMul("1e-14", RAdd(1, IAbsMax(w[1])))) /\ InEncl(r[2], w[2], AtanAcc)
    \* an inverse function is right when the function leads back to the argument
    [] f = "asin" -> err = 0 /\ CIsNum(r) /\ RLe(RAbs(r[1]), "1.57079634") /\ KIn(z, KSin(r), RMul("2e-8", RAdd(1, CMod2(z))))
    [] f = "acos" -> err = 0 /\ CIsNum(r) /\ KIn(z, KCos(r), RMul("2e-8", RAdd(1, CMod2(z))))
    [] f = "atan" -> err = 0 /\ CIsNum(r) /\ RLe(RAbs(r[1]), "1.57079634") /\ KIn(z, KTan(r), RMul("2e-8", RAdd(1, CMod2(z))))
ReOK(f, z, r, err) ==
  err = 0 /\
  CASE f = "re" -> REq(r, z[1]) [] f = "im" -> REq(r, z[2])
    [] f = "sqr" -> Rel1(r, CMod2(z), 3)
    [] f \in {"norm", "abs"} -> LET n == SqrtE(CMod2(z)) IN InEncl(r, n, RMul(RMul(3, U), n[2]))
    [] f = "arg" -> InEncl(r, Arg(z), AtanAcc)
    [] f = "real" -> IF RLt(RAbs(z[2]), U) THEN REq(r, z[1]) ELSE r = "nan"
(* The machine: s is the current value of the variable. *)
X0 == <<"0", "0">>
XStep(s, e) ==
  CASE e.op = "set" -> TRUE
    [] e.op \in {"asg", "asgr", "inv"} /\ ~CIsNum(s) -> CBad(e.r)      \* an invalid value stays invalid
    [] e.op = "asg" -> BinOK(e.f, s, e.w, e.r, e.err)
    [] e.op = "asgr" -> BinROK(e.f, s, e.k, e.r, e.err)
    [] e.op = "inv" -> UnOK("invert", s, e.r, e.err)
    [] e.op = "bin" -> BinOK(e.f, e.z, e.w, e.r, e.err) /\ SameC(e.cur, s)
    [] e.op = "binr" -> BinROK(e.f, e.z, e.k, e.r, e.err) /\ SameC(e.cur, s)
    [] e.op = "rbin" -> BinOK(e.f, COf(e.k), e.z, e.r, e.err) /\ SameC(e.cur, s)
    [] e.op = "un" -> UnOK(e.f, e.z, e.r, e.err) /\ SameC(e.cur, s)
    [] e.op = "realf" -> ReOK(e.f, e.z, e.r, e.err)
    [] e.op = "rotor" -> e.err = 0 /\ InEncl(e.r[1], CosE(e.k), RMul("1e-15", RAdd(1, RAbs(e.k)))) /\ InEncl(e.r[2], SinE(e.k), RMul("1e-15", RAdd(1, RAbs(e.k))))
    [] e.op = "eq" -> e.eq = CEq(e.z, e.w) /\ e.ne = ~e.eq
XNext(s, e) == IF e.op \in {"set", "asg", "asgr", "inv"} THEN e.r ELSE s
=============================================================================
