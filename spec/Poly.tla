-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* The ring of polynomials.  A polynomial is the sequence of its           *)
(* coefficients from degree 0 up; trailing zeros are allowed and the empty *)
(* sequence is zero.                                                       *)
(***************************************************************************)
EXTENDS Cplx
C(p, i) == IF i < 0 \/ i >= Len(p) THEN "0" ELSE p[i + 1]
PolyOf(n, f(_)) == Eager([i \in 1..n |-> f(i - 1)])
Larger(a, b) == IF a < b THEN b ELSE a
YAdd(p, q) == PolyOf(Larger(Len(p), Len(q)), LAMBDA k : RAdd(C(p, k), C(q, k)))
YSub(p, q) == PolyOf(Larger(Len(p), Len(q)), LAMBDA k : RSub(C(p, k), C(q, k)))
YScal(a, p) == PolyOf(Len(p), LAMBDA k : RMul(a, C(p, k)))
YAbs(p) == PolyOf(Len(p), LAMBDA k : RAbs(C(p, k)))
YLen(p, q) == IF p = <<>> \/ q = <<>> THEN 0 ELSE Len(p) + Len(q) - 1
YMul(p, q) == PolyOf(YLen(p, q), LAMBDA k : RSum([i \in 1..Len(p) |-> RMul(C(p, i - 1), C(q, k - i + 1))]))
YVal(p, x) == RPoly(p, x)
YDer(p) == IF Len(p) <= 1 THEN <<"0">> ELSE PolyOf(Len(p) - 1, LAMBDA k : RMul(k + 1, C(p, k + 1)))
YInt(p) == PolyOf(Len(p) + 1, LAMBDA k : IF k = 0 THEN "0" ELSE RDiv(C(p, k - 1), k))
YEq(p, q) == \A k \in 0..Larger(Len(p), Len(q)) : REq(C(p, k), C(q, k))
\* degree with respect to the threshold t; 0 for the zero polynomial
DegT(p, t) == LET S == {k \in 0..(Len(p) - 1) : RLt(t, RAbs(C(p, k)))} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
NullT(p, t) == \A k \in 0..(Len(p) - 1) : RLe(RAbs(C(p, k)), t)
Deg(p) == DegT(p, 0)
YRoots(rs) == LET f[i \in 0..Len(rs)] == IF i = 0 THEN <<"1">> ELSE YMul(f[i - 1], <<RNeg(rs[i]), "1">>) IN f[Len(rs)]
KVal(p, z) == LET f[i \in 0..Len(p)] == IF i = 0 THEN <<"0", "0">> ELSE CAdd(COf(p[Len(p) - i + 1]), CMul(z, f[i - 1])) IN f[Len(p)]
\* one step of long division: the leading term of r is cancelled
DivStep(q, r, d) == LET k == Deg(r) - Deg(d) c == RDiv(C(r, Deg(r)), C(d, Deg(d))) t == [i \in 1..(k + 1) |-> IF i = k + 1 THEN c ELSE "0"] IN
                    <<YAdd(q, t), PolyOf(Deg(r), LAMBDA j : RSub(C(r, j), C(YMul(t, d), j)))>>

(************************* acceptance of results ***************************)
Eps == R2Pow(-52)
YRel(r, p, k) == Len(r) = Len(p) /\ \A i \in 1..Len(p) : Ulps(r[i], p[i], k, RAbs(p[i]))
YMulOK(r, p, q) == Len(r) = YLen(p, q) /\ LET w == YMul(p, q) a == YMul(YAbs(p), YAbs(q)) IN \A i \in 1..Len(r) : Ulps(r[i], w[i], Len(p) + 2, a[i])
YBad(r) == Len(r) >= 1 /\ r[1] = "nan"
YNum(r) == \A i \in 1..Len(r) : RIsNum(r[i])
\* q is the quotient: what is left of p has degree below that of d up to rounding
YDivOK(p, d0, q) ==
  LET n == DegT(d0, Eps) d == SubSeq(d0, 1, n + 1) w == YMul(q, d) a == YMul(YAbs(q), YAbs(d)) IN
    /\ YNum(q)
    /\ \A k \in n..Larger(Len(p), Len(w)) :
         RLe(RAbs(RSub(C(p, k), C(w, k))), RAdd(RMul(Eps, RAdd(1, RAbs(C(d, n)))), RMul(RMul(4 * (Len(p) + 2), Eps), RAdd(RAbs(C(p, k)), C(a, k)))))
    /\ DegT(p, Eps) >= n => DegT(q, 0) <= DegT(p, Eps) - n
    /\ DegT(p, Eps) < n => NullT(q, 0)
YBin(f, p, q, r, err) ==
  CASE f = "+" -> err = 0 /\ YRel(r, YAdd(p, q), 1)
    [] f = "-" -> err = 0 /\ YRel(r, YSub(p, q), 1)
    [] f = "*" -> err = 0 /\ YMulOK(r, p, q)
    [] f = "/" -> IF NullT(q, 0) THEN err # 0 /\ YBad(r) ELSE err = 0 /\ YDivOK(p, q, r)
YBinR(f, p, a, r, err) ==
  CASE f = "*" -> err = 0 /\ YRel(r, YScal(a, p), 1)
    [] f = "/" -> IF RLt(RAbs(a), Eps) THEN err # 0 /\ YBad(r) ELSE err = 0 /\ YRel(r, YScal(RInv(a), p), 1)
RYBin(f, a, p, r, err) ==
  CASE f = "*" -> err = 0 /\ YRel(r, YScal(a, p), 1)
    [] f = "+" -> err = 0 /\ YRel(r, YAdd(p, <<a>>), 1)
    [] f = "-" -> err = 0 /\ YRel(r, YSub(<<a>>, p), 1)
HornTol(p, x) == RMul(RMul(2 * Len(p) + 2, Eps), YVal(YAbs(p), RAbs(x)))
\* the roots of x^2 + a x + b: their sum and product
QuadOK(p, r, err) ==
  IF DegT(p, Eps) # 2 THEN err # 0 /\ r[1][1] = "nan" /\ r[2][1] = "nan"
  ELSE LET a == RDiv(p[2], p[3]) b == RDiv(p[1], p[3]) s == CAdd(r[1], r[2]) m == CMul(r[1], r[2]) sc == RMul("1e-14", RAdd(RSq(a), RAbs(b))) IN
    /\ err = 0 /\ CIsNum(r[1]) /\ CIsNum(r[2])
    /\ CNear(m, COf(b), RAdd(RMul("1.001", Eps), sc))
    /\ CNear(s, COf(RNeg(a)), RAdd(RMul("4e-15", RAbs(a)), RMul("4e-15", SqrtE(RAbs(b))[2])))
RootIn(p, x, d) == RIsNum(x) /\ (RLe(RMul(YVal(p, RSub(x, d)), YVal(p, RAdd(x, d))), 0) \/ RLe(RAbs(YVal(p, x)), RAdd(Eps, RMul(2, HornTol(p, x)))))
P0 == <<>>
PStep(s, e) ==
  CASE e.op = "set" -> e.r = e.p
    [] e.op = "asg" -> IF YNum(s) THEN YBin(e.f, s, e.q, e.r, e.err) ELSE TRUE
    [] e.op = "asgr" -> IF YNum(s) THEN YBinR(e.f, s, e.a, e.r, e.err) ELSE TRUE
    [] e.op = "trim" -> e.err = 0 /\ IF ~YNum(s) THEN ~YNum(e.r) ELSE e.r = (IF NullT(s, Eps) THEN <<>> ELSE SubSeq(s, 1, DegT(s, Eps) + 1))
    [] e.op = "bin" -> YBin(e.f, e.p, e.q, e.r, e.err) /\ e.cur = s
    [] e.op = "binr" -> YBinR(e.f, e.p, e.a, e.r, e.err) /\ e.cur = s
    [] e.op = "rbin" -> RYBin(e.f, e.a, e.p, e.r, e.err) /\ e.cur = s
    [] e.op = "order" -> e.err = 0 /\ e.r = DegT(e.p, Eps) /\ e.n = Len(e.p)
    [] e.op = "eval" -> e.err = 0 /\ Near(e.r, YVal(e.p, e.x), HornTol(e.p, e.x)) /\ e.r2 = e.r
    [] e.op = "ceval" -> e.err = 0 /\ CNear(e.r, KVal(e.p, e.z), RMul(4, HornTol(e.p, CAbs1(e.z))))
    [] e.op = "deriv" -> IF e.p = <<>> THEN e.err # 0 /\ YBad(e.r) ELSE e.err = 0 /\ YRel(e.r, YDer(e.p), 1)
    [] e.op = "derivat" -> e.err = 0 /\ Near(e.r, YVal(YDer(e.p), e.x), RMul(2, HornTol(YDer(e.p), e.x)))
    [] e.op = "integ" -> e.err = 0 /\ YRel(e.r, YInt(e.p), 1)
    [] e.op = "integat" -> e.err = 0 /\ LET P == YInt(e.p) IN Near(e.r, RSub(YVal(P, e.b), YVal(P, e.a)), RMul(2, RAdd(HornTol(P, e.a), HornTol(P, e.b))))
    [] e.op = "froots" -> e.err = 0 /\ LET w == YRoots(e.x) a == YAbs(YRoots([i \in 1..Len(e.x) |-> RNeg(RAbs(e.x[i]))])) IN
                            Len(e.r) = Len(w) /\ \A i \in 1..Len(w) : Ulps(e.r[i], w[i], 2 * Len(w), a[i])
    [] e.op = "mono" -> e.err = 0 /\ Len(e.r) = e.n + 1 /\ \A i \in 1..(e.n + 1) : REq(e.r[i], IF i = e.n + 1 THEN e.a ELSE "0")
    [] e.op = "eq" -> LET d == YSub(e.p, e.q) IN
           IF \A k \in 1..Len(d) : RLe(RAbs(d[k]), RDiv(Eps, 2)) THEN e.r ELSE (\E k \in 1..Len(d) : RLe(RMul(2, Eps), RAbs(d[k]))) => ~e.r
    [] e.op = "quad" -> QuadOK(e.p, e.r, e.err)
    [] e.op = "roots" -> e.err = 0 /\ \A i \in 1..Len(e.r) : RootIn(e.p, e.r[i], RMul(2, e.tol))
PNext(s, e) == IF e.op \in {"set", "asg", "asgr", "trim"} THEN e.r ELSE s
=============================================================================
