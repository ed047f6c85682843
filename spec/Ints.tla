-------------------------------- MODULE Ints --------------------------------
(***************************************************************************)
(* Integer functions, each characterised by the inequality or recurrence   *)
(* that defines it on the unbounded integers.  A call whose true value     *)
(* does not fit the result type is outside the specification.              *)
(***************************************************************************)
EXTENDS Rat

Fits(v, w) == RLe(0, v) /\ RLt(v, R2Pow(w))

IsFloorRoot(r, n, k) == RLe(RPow(r, k), n) /\ RLt(n, RPow(RAdd(r, 1), k))
IsLog2(r, n)  == RLe(ZShl(1, r), n) /\ RLt(n, ZShl(1, r + 1))
IsPad2(r, n)  == \E k \in 0..64 : r = R2Pow(k) /\ RLe(n, r) /\ (k = 0 \/ RLt(R2Pow(k - 1), n))

RECURSIVE Falling(_, _), Rising(_, _), DFact(_)
Falling(x, n) == IF n = 0 THEN "1" ELSE RMul(x, Falling(RSub(x, 1), n - 1))
Rising(x, n)  == IF n = 0 THEN "1" ELSE RMul(x, Rising(RAdd(x, 1), n - 1))
Fact(n)       == Falling(n, n)
DFact(n)      == IF n <= 1 THEN "1" ELSE RMul(n, DFact(n - 2))
Binom(n, k)   == LET m == IF k > n - k THEN n - k ELSE k IN RDiv(Falling(n, m), Fact(m))
Catalan(n)    == RDiv(Binom(2 * n, n), n + 1)

\* the binomial is required when n times the value still fits
BinomRequired(n, k, w) == Fits(RMul(IF n = 0 THEN 1 ELSE n, Binom(n, k)), w)

M0 == "-"
MNext(s, e) == s

MStep(s, e) ==
  CASE e.op = "isqrt" -> IsFloorRoot(e.r, e.n, 2)
    [] e.op = "icbrt" -> IsFloorRoot(e.r, e.n, 3)
    [] e.op = "ilog2" -> IsLog2(RToInt(e.r), e.n)
    [] e.op = "pad2"  -> RLe(e.n, R2Pow(e.w - 1)) => IsPad2(e.r, e.n)
    [] e.op = "fact"  -> Fits(Fact(e.n), 64) => e.r = Fact(e.n)
    [] e.op = "dfact" -> Fits(DFact(e.n), 64) => e.r = DFact(e.n)
    [] e.op = "falling" -> Fits(Falling(e.x, e.n), 64) => e.r = Falling(e.x, e.n)
    [] e.op = "rising"  -> Fits(Rising(e.x, e.n), 64) => e.r = Rising(e.x, e.n)
    [] e.op = "binom" -> BinomRequired(e.n, e.k, 64) => e.r = Binom(e.n, e.k)
    [] e.op = "catalan" -> BinomRequired(2 * e.n, e.n, 64) => e.r = Catalan(e.n)
    [] e.op = "ipowu" -> Fits(RPow(e.x, e.n), 64) => e.r = RPow(e.x, e.n)
    \* real powers: one rounding per multiplication, hence (2n + 4) units of relative error
    [] e.op = "pow" -> LET v == RPow(e.x, e.n) IN
                       (RIsNum(v) /\ RLt(RAbs(v), R2Pow(1000)) /\ RLt(R2Pow(-1000), RAbs(v))) =>
                         Ulps(e.r, v, (IF e.n < 0 THEN -e.n ELSE e.n) + 4, RAbs(v))
    [] e.op = "ffall" -> Ulps(e.r, Falling(e.x, e.n), 2 * e.n + 2, RAbs(Falling(e.x, e.n)))
    [] e.op = "frise" -> Ulps(e.r, Rising(e.x, e.n), 2 * e.n + 2, RAbs(Rising(e.x, e.n)))
    [] e.op = "delta" -> e.r = (IF e.i = e.j THEN 1 ELSE 0)
    [] OTHER -> FALSE
=============================================================================
