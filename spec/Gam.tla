-------------------------------- MODULE Gam ---------------------------------
(***************************************************************************)
(* Enclosures of the Gamma function: Stirling's series after moving the    *)
(* argument beyond 32 with the recurrence, with the first omitted term as  *)
(* a bound of the error, and the reflection formula for negative           *)
(* arguments.                                                              *)
(***************************************************************************)
EXTENDS Cplx
G_Bern == <<"1/6", "-1/30", "1/42", "-1/30", "5/66", "-691/2730", "7/6", "-3617/510", "43867/798", "-174611/330", "854513/138",
            "-236364091/2730", "8553103/6", "-23749461029/870", "8615841276005/14322">>
LnSqrt2Pi == Once("ln sqrt 2pi", IScale("1/2", ILn(IScale(2, PiE))))
\* z >= 32
LOCAL Stirling(z) ==
  LET w == Eager(RDown(RDiv(1, z), 240)) w2 == Eager(RDown(RMul(w, w), 240)) l == Eager(LnE(z))
      s == Eager(RSum([k \in 1..15 |-> RDown(RMul(RDiv(G_Bern[k], 2 * k * (2 * k - 1)), RMul(w, RPow(w2, k - 1))), 240)]))
      r == "1e-37"
  IN  IAdd(IAdd(ISub(IScale(RSub(z, "1/2"), l), Pt(z)), LnSqrt2Pi), <<RSub(s, r), RAdd(s, r)>>)
\* x > 0
LnGammaE(x) ==
  IF RLe(32, x) THEN Eager(Stirling(x))
  ELSE LET N == 32 - RToInt(RFloor(x))
       IN  Eager(ISub(Stirling(RAdd(x, N)), LnE(RProd([k \in 1..N |-> RAdd(x, k - 1)]))))
\* sin(pi x)
SinPiE(x) == LET n == RFloor(RAdd(x, "1/2")) f == RSub(x, n)
                 \* next to a zero the enclosure is relative: pi f (1 - (pi f)^2/6) < sin < pi f
                 s == Eager(IF RLt(RAbs(f), R2Pow(-50)) THEN IMul(IScale(f, PiE), <<RSub(1, R2Pow(-98)), "1">>) ELSE ISin(IScale(f, PiE)))
             IN  IF REq(ZMod(n, 2), 0) THEN s ELSE INeg(s)
IsPole(x) == RLe(x, 0) /\ REq(RFloor(x), x)
\* x not a pole
GammaE(x) == IF RLt(0, x) THEN Eager(IExp(Eager(LnGammaE(x)))) ELSE Eager(IDiv(PiE, Eager(IMul(Eager(SinPiE(x)), Eager(IExp(Eager(LnGammaE(RSub(1, x)))))))))
=============================================================================
