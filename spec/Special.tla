------------------------------ MODULE Special -------------------------------
(***************************************************************************)
(* The Gamma family.  A call returns a value of the function it names to   *)
(* the accuracy of Lanczos' approximation (2e-10 on the logarithm) and of  *)
(* the rounding; it reports an error exactly at the poles and where the    *)
(* logarithm is not real, and returns the same value whenever repeated.    *)
(***************************************************************************)
EXTENDS Gam, TLC
DMax == "0x1.fffffffffffffp+1023"
STiny == "1e-305"
\* beyond this argument Gamma exceeds the range of doubles (Gamma(171.6243...) = 2^1024)
Huge(x) == RLt(172, x)
Within(r, I, a, b) == LET w == Eager(RAdd(a, RMul(b, IAbsMax(I)))) IN RIsNum(r) /\ RLe(RSub(I[1], w), r) /\ RLe(r, RAdd(I[2], w))
Ranged(r, I0, a0, b0) == LET I == Eager(I0) a == Eager(a0) b == Eager(b0) IN
                      \/ RLt(DMax, I[1]) /\ r = "inf"
                      \/ RLt(I[2], RNeg(DMax)) /\ r = "-inf"
                      \/ Within(r, I, a, b)
                      \/ RLt(RMul(DMax, RSub(1, b)), I[2]) /\ r = "inf"
                      \/ RLt(I[1], RNeg(RMul(DMax, RSub(1, b)))) /\ r = "-inf"
IsInt(x) == REq(RFloor(x), x)
\* the sign of Gamma at x < 0, not a pole
NegGamma(x) == REq(ZMod(RFloor(RNeg(x)), 2), 0)
\* accuracy of the library's logarithm: the build without processor instructions uses a series
LnErr(p) == IF p THEN "4e-9" ELSE R2Pow(-51)
LanAcc == "2.5e-10"
\* error of lngamma at x > 0: Lanczos, and the rounding of (x - 1/2) (ln(x + 9/2) - 1)
LgErrP(x, p) == RAdd(LanAcc, RMul(RAdd(x, 8), RAdd(RMul(4, LnErr(p)), RMul(R2Pow(-48), IAbsMax(LnE(RAdd(x, 8)))))))
\* at x < 0 also the rounding of pi x under the sine
LgErr(x, p) == IF RLt(0, x) THEN LgErrP(x, p)
               ELSE RAdd(LgErrP(RSub(1, x), p), RAdd(RMul(4, LnErr(p)), RDiv(RMul(R2Pow(-48), RAdd(1, RAbs(x))), RAbs(SinPiE(x)[1]))))
LnGammaPos(x) == IF RLt(0, x) THEN LnGammaE(x) ELSE ISub(ILn(IDiv(PiE, SinPiE(x))), LnGammaE(RSub(1, x)))
\* |Gamma(x)| for negative arguments below -180 is less than any double
Under(x) == RLt(x, -180)
GErr(x, p) == RAdd(LgErr(x, p), RMul(R2Pow(-48), RAdd(2, RAbs(x))))
GammaOK(x, r, err, p) ==
  IF IsPole(x) THEN err # 0 /\ r = "inf"
  ELSE /\ err = 0
       /\ IF Huge(x) THEN r = "inf"
          ELSE IF Under(x) THEN Near(r, 0, STiny)
          ELSE IF IsInt(x) THEN Ranged(r, Pt(RProd([j \in 1..(RToInt(x) - 1) |-> j])), 0, R2Pow(-45))
          ELSE Ranged(r, GammaE(x), STiny, RMul(2, GErr(x, p)))
BetaErr(x, y, p) == RAdd(RAdd(LgErrP(x, p), LgErrP(y, p)), RAdd(LgErrP(RAdd(x, y), p), RMul(R2Pow(-46), RAdd(8, RAdd(IAbsMax(LnE(x)), IAbsMax(LnE(y)))))))
BetaE(x, y) == IExp(Eager(ISub(IAdd(LnGammaE(x), LnGammaE(y)), LnGammaE(RAdd(x, y)))))
SValOK(e) ==
  CASE e.f = "gammak" -> IF e.n = 0 THEN e.err # 0 /\ e.r = "nan" ELSE GammaOK(e.n, e.r, e.err, e.port)
    [] e.f = "half" -> IF e.n = 0 THEN e.err # 0 /\ e.r = "nan"
                       ELSE /\ e.err = 0
                            /\ IF e.n > 344 THEN e.r = "inf" ELSE Ranged(e.r, GammaE(RDiv(e.n, 2)), 0, R2Pow(-42))
    [] e.f = "gamma" -> GammaOK(e.x, e.r, e.err, e.port)
    [] e.f = "pi" -> LET x1 == RAdd(e.x, 1) x2 == e.x1 IN     \* the argument of Gamma is rounded
                     RLe(RAbs(RSub(x1, x2)), RMul(R2Pow(-53), RAbs(x1))) /\ GammaOK(x2, e.r, e.err, e.port)
    [] e.f = "lngamma" -> IF IsPole(e.x) THEN e.err # 0 /\ e.r = "inf"
                          ELSE IF RLt(e.x, 0) /\ NegGamma(e.x) THEN e.err # 0 /\ e.r = "nan"
                          ELSE e.err = 0 /\ Ranged(e.r, LnGammaPos(e.x), LgErr(e.x, e.port), R2Pow(-48))
    [] e.f = "beta" -> e.err = 0 /\ LET d == Eager(BetaErr(e.x, e.y, e.port)) IN RLt(d, "1/8") => Ranged(e.r, BetaE(e.x, e.y), STiny, RMul(2, d))
SKey(e) == <<e.f, e.x, e.y, e.n>>
SStep(s, e) == (\A m \in s : m[1] = SKey(e) => m[2] = <<e.r, e.err>>) /\ SValOK(e)
SNext(s, e) == s \cup {<<SKey(e), <<e.r, e.err>>>>}
S0 == {}
=============================================================================
