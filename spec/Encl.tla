-------------------------------- MODULE Encl --------------------------------
(***************************************************************************)
(* Rational enclosures <<lo, hi>> of the transcendental functions, by      *)
(* argument reduction and Taylor series in fixed point.                    *)
(*                                                                         *)
(* Fixed point keeps 160 fractional bits; a Horner sum of at most 45 terms *)
(* with |x| < 1 is off by less than 45 * 2^-160, truncation of the series  *)
(* by less than 2^-150, reduction by less than 2^-150 for |x| < 2^200;     *)
(* every ball therefore has radius 2^-130 (absolute or relative as said).  *)
(* EnclModel checks the functional equations of these enclosures.          *)
(***************************************************************************)
EXTENDS Rat

E_FP == 160
E_R0 == Once("r0", R2Pow(-130))
LOCAL Cut(x) == RDown(x, E_FP)

E_FactR == [n \in 0..90 |-> RProd([k \in 1..n |-> k])]

Ball(m)    == <<RSub(m, E_R0), RAdd(m, E_R0)>>                              \* absolute radius
BallRel(m) == LET d == RMul(RAbs(m), E_R0) IN <<RSub(m, d), RAdd(m, d)>>  \* relative radius
Pt(x)      == <<x, x>>

(*********************** interval arithmetic *******************************)
IAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
INeg(a)    == <<RNeg(a[2]), RNeg(a[1])>>
ISub(a, b) == IAdd(a, INeg(b))
LOCAL Min4(p, q, r, s) == RMin(RMin(p, q), RMin(r, s))
LOCAL Max4(p, q, r, s) == RMax(RMax(p, q), RMax(r, s))
IMul(a, b) == LET p == RMul(a[1], b[1]) q == RMul(a[1], b[2]) r == RMul(a[2], b[1]) s == RMul(a[2], b[2])
              IN <<Min4(p, q, r, s), Max4(p, q, r, s)>>
IScale(k, a) == IF RLe(0, k) THEN <<RMul(k, a[1]), RMul(k, a[2])>> ELSE <<RMul(k, a[2]), RMul(k, a[1])>>
IInv(a)    == <<RDiv(1, a[2]), RDiv(1, a[1])>>                          \* 0 not in a
IDiv(a, b) == IMul(a, IInv(b))
IMid(a)    == RDiv(RAdd(a[1], a[2]), 2)
IAbsMax(a) == RMax(RAbs(a[1]), RAbs(a[2]))
IContains(a, x) == RLe(a[1], x) /\ RLe(x, a[2])
IMeet(a, b) == RLe(a[1], b[2]) /\ RLe(b[1], a[2])

(***************************** constants ***********************************)
LOCAL AtanTaylor(x, n) ==      \* alternating series for small rational x, n terms, exact
  RSum([k \in 1..n |-> RMul(IF k % 2 = 1 THEN 1 ELSE -1, RDiv(RPow(x, 2 * k - 1), 2 * k - 1))])
PiMid == Once("pi", RDown(RSub(RMul(16, AtanTaylor("1/5", 100)), RMul(4, AtanTaylor("1/239", 30))), 400))
PiE   == Ball(PiMid)
LOCAL LnSeries(z, n) ==        \* 2 atanh(z)
  RMul(2, RSum([k \in 1..n |-> RDiv(RPow(z, 2 * k - 1), 2 * k - 1)]))
Ln2Mid == Once("ln2", RDown(LnSeries("1/3", 130), 400))
PiHalf == Once("pi/2", RDown(RDiv(PiMid, 2), 220))

E_SinC  == Once("SinC", [k \in 1..26 |-> RDiv(IF k % 2 = 1 THEN 1 ELSE -1, E_FactR[2 * k - 1])])
E_CosC  == Once("CosC", [k \in 1..26 |-> RDiv(IF k % 2 = 1 THEN 1 ELSE -1, E_FactR[2 * k - 2])])
E_ExpC  == Once("ExpC", [k \in 1..42 |-> RDiv(1, E_FactR[k - 1])])
E_AthC  == Once("AthC", [k \in 1..42 |-> RDiv(1, 2 * k - 1)])
E_AtnC  == Once("AtnC", [k \in 1..30 |-> RDiv(IF k % 2 = 1 THEN 1 ELSE -1, 2 * k - 1)])
E_AtanGrid == <<"0", "1/4", "1/2", "3/4", "1">>
E_AtanVal  == Once("AtanVal", <<"0", RDown(AtanTaylor("1/4", 60), 300), RDown(AtanTaylor("1/2", 120), 300),
                    RDown(RMul(2, AtanTaylor("1/3", 80)), 300), RDiv(PiMid, 4)>>)

(***************************** functions ***********************************)
\* square root, relative accuracy 2^-128
SqrtE(x) ==
  IF REq(x, 0) THEN <<"0", "0">>
  ELSE LET k == 132 - (RExp2(x) \div 2)
           r == ZSqrt(RFloor(RMul(x, R2Pow(2 * k))))
       IN <<RMul(r, R2Pow(-k)), RMul(RAdd(r, 1), R2Pow(-k))>>
ISqrt(a) == <<SqrtE(RMax(0, a[1]))[1], SqrtE(a[2])[2]>>

\* sine and cosine of an exact argument, |x| < 2^200
LOCAL Octant(x) == RFloor(RAdd(RDiv(RMul(2, x), PiMid), "1/2"))
LOCAL SinSmall(r) == RMul(r, RHorner(E_SinC, Cut(RMul(r, r)), E_FP))
LOCAL CosSmall(r) == RHorner(E_CosC, Cut(RMul(r, r)), E_FP)
SinE(x) ==
  LET k == Octant(x)
      r == Cut(RSub(x, RMul(k, RDiv(PiMid, 2))))
      q == RToInt(ZMod(k, 4))
  IN  Ball(Cut(CASE q = 0 -> SinSmall(r) [] q = 1 -> CosSmall(r) [] q = 2 -> RNeg(SinSmall(r)) [] q = 3 -> RNeg(CosSmall(r))))
CosE(x) ==
  LET k == Octant(x)
      r == Cut(RSub(x, RMul(k, RDiv(PiMid, 2))))
      q == RToInt(ZMod(k, 4))
  IN  Ball(Cut(CASE q = 0 -> CosSmall(r) [] q = 1 -> RNeg(SinSmall(r)) [] q = 2 -> RNeg(CosSmall(r)) [] q = 3 -> SinSmall(r)))
\* over an interval: the value at the middle widened by half the width (Lipschitz constant 1)
LOCAL Widen(e, w) == <<RSub(e[1], w), RAdd(e[2], w)>>
ISin(a) == Widen(SinE(IMid(a)), RDiv(RSub(a[2], a[1]), 2))
ICos(a) == Widen(CosE(IMid(a)), RDiv(RSub(a[2], a[1]), 2))

\* exponential, relative accuracy, |x| < 2^20
ExpE(x) ==
  LET n == RToInt(RFloor(RDiv(x, Ln2Mid)))
      r == Cut(RSub(x, RMul(n, Ln2Mid)))
      m == RHorner(E_ExpC, r, E_FP)
  IN  BallRel(RMul(m, R2Pow(n)))
IExp(a) == <<ExpE(a[1])[1], ExpE(a[2])[2]>>

\* natural logarithm of x > 0, absolute accuracy
LnE(x) ==
  LET e0 == RExp2(x)
      m0 == RMul(x, R2Pow(-e0))
      up == RLt("3/2", m0)
      e  == IF up THEN e0 + 1 ELSE e0
      m  == IF up THEN RDiv(m0, 2) ELSE m0
      z  == Cut(RDiv(RSub(m, 1), RAdd(m, 1)))
  IN  Ball(RAdd(RMul(e, Ln2Mid), RMul(RMul(2, z), RHorner(E_AthC, Cut(RMul(z, z)), E_FP))))
ILn(a) == <<LnE(a[1])[1], LnE(a[2])[2]>>

\* arctangent, absolute accuracy
LOCAL AtanUnit(x) ==     \* 0 <= x <= 1
  LET g == RToInt(RFloor(RAdd(RMul(4, x), "1/2"))) + 1
      c == E_AtanGrid[g]
      z == Cut(RDiv(RSub(x, c), RAdd(1, RMul(c, x))))
  IN  Cut(RAdd(E_AtanVal[g], RMul(z, RHorner(E_AtnC, Cut(RMul(z, z)), E_FP))))
LOCAL AtanPos(x) == IF RLe(x, 1) THEN AtanUnit(x) ELSE RSub(PiHalf, AtanUnit(RDiv(1, x)))
AtanE(x) == Ball(IF RLe(0, x) THEN AtanPos(x) ELSE RNeg(AtanPos(RNeg(x))))
IAtan(a) == <<AtanE(a[1])[1], AtanE(a[2])[2]>>

AtanAcc == "1.1e-8"     \* accuracy the library offers for the arctangent
\* angle of the point (x, y), not both 0, in (-pi, pi]
Atan2E(y, x) ==
  IF REq(x, 0) THEN IScale(IF RLt(0, y) THEN "1/2" ELSE "-1/2", PiE)
  ELSE IF RLt(0, x) THEN AtanE(RDiv(y, x))
  ELSE IF RLe(0, y) THEN IAdd(AtanE(RDiv(y, x)), PiE) ELSE ISub(AtanE(RDiv(y, x)), PiE)

\* arcsine: |x| <= 1
AsinE(x) ==
  IF REq(x, 1) THEN IScale("1/2", PiE) ELSE IF REq(x, -1) THEN IScale("-1/2", PiE)
  ELSE IAtan(IDiv(Pt(x), SqrtE(RSub(1, RMul(x, x)))))
AcosE(x) == ISub(IScale("1/2", PiE), AsinE(x))

\* x^a for x > 0
PowE(x, a) == IExp(IScale(a, LnE(x)))
=============================================================================
