---------------------------- MODULE SpecialModel ----------------------------
(* The enclosures satisfy the functional equations of the Gamma function,  *)
(* and the machine accepts the exact values and no value away from them.   *)
EXTENDS Special
VARIABLES x, y
Grid == {RDiv(k, 8) : k \in -24..12} \cup {"1e-12", "100.3", "-30.7", "171.5", "1e6"}
Init == x \in Grid /\ y = "none"
Next == y = "none" /\ x' = x /\ y' \in {"1/3", "17/4"}
On == y # "none"
Ok(z) == ~IsPole(z)
Recurrence == (On /\ Ok(x) /\ RLt(x, 200)) => IMeet(Eager(GammaE(RAdd(x, 1))), Eager(IScale(x, GammaE(x))))
Factorial == (On /\ IsInt(x) /\ RLt(0, x) /\ RLt(x, 100)) => IContains(GammaE(x), RProd([j \in 1..(RToInt(x) - 1) |-> j]))
HalfPi == On => IContains(IMul(GammaE("1/2"), GammaE("1/2")), PiMid)
\* Gamma(x) Gamma(x + 1/2) = 2^(1 - 2x) sqrt(pi) Gamma(2x)
Duplication == (On /\ RLt(0, x) /\ RLt(x, 60)) => IMeet(Eager(IMul(Eager(GammaE(x)), Eager(GammaE(RAdd(x, "1/2"))))), Eager(IMul(Eager(IMul(PowE(2, RSub(1, RMul(2, x))), Eager(ISqrt(PiE)))), Eager(GammaE(RMul(2, x))))))
Narrow == (On /\ Ok(x) /\ RLt(x, 200)) => LET g == Eager(GammaE(x)) IN RLe(RSub(g[2], g[1]), RMul("1e-25", IAbsMax(g)))
SignRule == (On /\ RLt(x, 0) /\ Ok(x)) => (NegGamma(x) <=> RLt(GammaE(x)[2], 0))
LogRule == (On /\ Ok(x) /\ RLt(0, x) /\ RLt(x, 200)) => IMeet(Eager(ILn(Eager(GammaE(x)))), LnGammaPos(x))
BetaRec == (On /\ RLt(0, x) /\ RLt(x, 200)) => /\ IMeet(Eager(BetaE(x, y)), Eager(BetaE(y, x)))
                                         /\ IMeet(Eager(BetaE(x, y)), Eager(IAdd(Eager(BetaE(RAdd(x, 1), y)), Eager(BetaE(x, RAdd(y, 1))))))
Mid(i) == IMid(i)
Ev(f, r, err) == [f |-> f, x |-> x, x1 |-> x, y |-> y, n |-> 0, r |-> r, err |-> err, port |-> FALSE]
Sound == (On /\ Ok(x) /\ RLt(x, 171)) => LET g == Eager(Mid(GammaE(x))) IN
           /\ SValOK(Ev("gamma", g, 0)) /\ ~SValOK(Ev("gamma", g, 1)) /\ ~SValOK(Ev("gamma", RNeg(g), 0))
           /\ RLt("1e-100", RAbs(g)) => ~SValOK(Ev("gamma", RMul(g, "1.000001"), 0))
Poles == (On /\ IsPole(x)) => SValOK(Ev("gamma", "inf", 33)) /\ ~SValOK(Ev("gamma", "inf", 0)) /\ ~SValOK(Ev("lngamma", "nan", 33))
=============================================================================
