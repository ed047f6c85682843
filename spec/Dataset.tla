------------------------------ MODULE Dataset -------------------------------
(***************************************************************************)
(* Reductions of data sets.  The value of each call is compared with the   *)
(* exact rational value of its definition; the admitted difference is the  *)
(* rounding of the operations involved, relative to the sum of the         *)
(* magnitudes that are added.                                              *)
(***************************************************************************)
EXTENDS Rat, Encl

N(s) == Len(s)
Inv(s)   == [i \in 1..Len(s) |-> RDiv(1, s[i])]
Mul2(s, t) == [i \in 1..Len(s) |-> RMul(s[i], t[i])]
Sq(s)    == Mul2(s, s)
MaxOf(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE RMax(f[i - 1], s[i]) IN f[Len(s)]
MinOf(s) == LET f[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE RMin(f[i - 1], s[i]) IN f[Len(s)]
Slice(s, a, b) == [i \in 1..(b - a) |-> s[a + i]]
Log2Up(n) == LET f[k \in 0..40] == IF 2^k >= n THEN k ELSE f[k + 1] IN IF n > 2^29 THEN 30 ELSE f[0]

\* sums: k roundings per summand
SumOK(r, s, k) == Ulps(r, RSum(s), k, RSumAbs(s))
\* compensated: one rounding of the result plus a term of second order
CompOK(r, s) == Near(r, RSum(s), RAdd(RMul(R2Pow(-51), RAbs(RSum(s))), RMul(RMul(Len(s) * Len(s) + 1, R2Pow(-104)), RSumAbs(s))))
\* pairwise: naive below the base size, one more rounding per level of recursion
PairOK(r, s, base) == SumOK(r, s, (IF Len(s) < base THEN Len(s) ELSE base) + Log2Up(Len(s)) + 1)
ProdOK(r, s) == Ulps(r, RProd(s), Len(s), RAbs(RProd(s)))
QuotOK(r, num, den, den_abs, k) ==      \* num / den with relative error of the denominator den_abs / |den|
  LET q == RDiv(num, den) IN
    Near(r, q, RMul(RMul(k, R2Pow(-52)), RMul(RAbs(q), RAdd(2, RDiv(den_abs, RAbs(den))))))

Fn(f, x) == CASE f = "square" -> RMul(x, x) [] f = "neg" -> RNeg(x) [] f = "id" -> x

Value(e) ==
  CASE e.f \in {"sum", "pairwise"} -> PairOK(e.r, e.x, 128)
    [] e.f = "pairwise_range" -> PairOK(e.r, Slice(e.x, e.b, e.e), e.base)
    [] e.f = "compensated" -> CompOK(e.r, e.x)
    [] e.f = "product" -> ProdOK(e.r, e.x)
    [] e.f = "sum_squares" -> SumOK(e.r, Sq(e.x), N(e.x) + 1)
    [] e.f = "product_sum" -> SumOK(e.r, Mul2(e.x, e.y), N(e.x) + 1)
    [] e.f = "product_sum3" -> SumOK(e.r, Mul2(Mul2(e.x, e.y), e.z), N(e.x) + 2)
    [] e.f = "product_sum_squares" -> SumOK(e.r, Mul2(Sq(e.x), Sq(e.y)), N(e.x) + 3)
    [] e.f = "quotient_sum" -> SumOK(e.r, Mul2(e.x, Inv(e.y)), N(e.x) + 1)
    [] e.f = "max" -> REq(e.r, MaxOf(e.x))
    [] e.f = "min" -> REq(e.r, MinOf(e.x))
    [] e.f = "arithmetic" -> SumOK(e.r, [i \in 1..N(e.x) |-> RDiv(e.x[i], N(e.x))], N(e.x) + 2)
    [] e.f = "harmonic" -> QuotOK(e.r, N(e.x), RSum(Inv(e.x)), RSumAbs(Inv(e.x)), N(e.x) + 3)
    [] e.f = "weighted" ->
         LET w == RSum(e.y) q == RDiv(RDot(e.x, e.y), w) wa == RDiv(RSumAbs(e.y), RAbs(w))
         IN Near(e.r, q, RMul(RMul(N(e.x) + 4, R2Pow(-51)), RAdd(RDiv(RDotAbs(e.x, e.y), RAbs(w)), RMul(RAbs(q), wa))))
    [] e.f = "quadratic" ->
         LET v == SqrtE(RDiv(RSum(Sq(e.x)), N(e.x))) IN InEncl(e.r, v, RMul(RMul(N(e.x) + 6, R2Pow(-52)), v[2]))
    [] e.f = "geometric" ->       \* r^n = product (the n-th root is iterative: 1e-8 relative and absolute)
         LET p == RProd(e.x) IN
           /\ RIsNum(e.r) /\ (RLt(0, p) => RLe(0, e.r)) /\ (RLt(p, 0) => RLe(e.r, 0))
           /\ LET lo == RSub(RAbs(e.r), RMul("1e-8", RAdd(RAbs(e.r), "1e-6")))
                  hi == RAdd(RAbs(e.r), RMul("1e-8", RAdd(RAbs(e.r), "1e-6")))
              IN (RLt(0, lo) => RLe(RPow(lo, N(e.x)), RAbs(p))) /\ RLe(RAbs(p), RPow(hi, N(e.x)))
    [] e.f = "const_sum" -> Ulps(e.r, RMul(e.n, e.c), 128 + Log2Up(e.n) + 1, RMul(e.n, RAbs(e.c)))
    [] e.f = "const_comp" -> Ulps(e.r, RMul(e.n, e.c), 2, RMul(e.n, RAbs(e.c)))
    [] OTHER -> FALSE

M0 == "-"
MNext(s, e) == s
MStep(s, e) ==
  CASE e.op = "red" -> e.same /\ Value(e)
    [] e.op = "apply" -> Len(e.r) = Len(e.x) /\ \A i \in 1..Len(e.x) : Ulps(e.r[i], Fn(e.fn, e.x[i]), 1, RAbs(Fn(e.fn, e.x[i])))
    [] e.op = "map" -> e.same /\ Len(e.r) = Len(e.x) /\ \A i \in 1..Len(e.x) : Ulps(e.r[i], Fn(e.fn, e.x[i]), 1, RAbs(Fn(e.fn, e.x[i])))
    [] e.op = "concat" -> e.same /\ e.r = e.x \o e.y
    [] OTHER -> FALSE
=============================================================================
