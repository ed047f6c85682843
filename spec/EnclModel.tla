----------------------------- MODULE EnclModel ------------------------------
(* Functional equations of the enclosures over a grid of arguments. *)
EXTENDS Encl, TLC
VARIABLES x, y
Grid == {"0", "1", "-1", "1/3", "-7/5", "22/7", "100", "-1000/7", "1234567/1000", "1e-9", "0x1.921fb54442d18p+0", "-0x1.921fb54442d18p+1", "1/7", "3/4", "5/8", "-3/8", "9/8"}
Init == x \in Grid /\ y \in Grid
Next == FALSE /\ UNCHANGED <<x, y>>
Thin(e, t) == RLe(RSub(e[2], e[1]), t) /\ RLe(e[1], e[2])
Tiny == R2Pow(-110)
Pythagoras == IContains(IAdd(IMul(SinE(x), SinE(x)), IMul(CosE(x), CosE(x))), 1) /\ Thin(SinE(x), Tiny) /\ Thin(CosE(x), Tiny)
SineSum == IMeet(SinE(RAdd(x, y)), IAdd(IMul(SinE(x), CosE(y)), IMul(CosE(x), SinE(y))))
CosSum == IMeet(CosE(RAdd(x, y)), ISub(IMul(CosE(x), CosE(y)), IMul(SinE(x), SinE(y))))
SmallSine == RLt(RAbs(x), 1) => \* x - x^3/6 <= sin x <= x for x >= 0
   LET a == RAbs(x) IN RLe(SinE(a)[1], a) /\ RLe(RSub(a, RDiv(RPow(a, 3), 6)), SinE(a)[2])
ExpSum == IMeet(ExpE(RAdd(x, y)), IMul(ExpE(x), ExpE(y))) /\ RLe(RAdd(1, x), ExpE(x)[2])
LnProd == (RLt(0, x) /\ RLt(0, y)) => IMeet(LnE(RMul(x, y)), IAdd(LnE(x), LnE(y))) /\ Thin(LnE(x), Tiny)
ExpLn == RLt(0, x) => IContains(IExp(LnE(x)), x)
AtanTan == IMeet(ISin(AtanE(x)), IMul(Pt(x), ICos(AtanE(x)))) /\ Thin(AtanE(x), Tiny) /\ RLt(0, ICos(AtanE(x))[1])
AsinSin == RLe(RAbs(x), 1) => IContains(ISin(AsinE(x)), x) /\ IContains(ICos(AcosE(x)), x)
SqrtSq == RLe(0, x) => IContains(IMul(SqrtE(x), SqrtE(x)), x) /\ Thin(SqrtE(x), RMul(Tiny, RAdd(1, x)))
Angle == (~REq(x, 0) \/ ~REq(y, 0)) =>
   LET t == Atan2E(y, x) r == SqrtE(RAdd(RMul(x, x), RMul(y, y)))
   IN IContains(IMul(r, ICos(t)), x) /\ IContains(IMul(r, ISin(t)), y) /\ RLe(RAbs(t[1]), "3.15")
Digits == IContains(PiE, "3.14159265358979323846264338327950288") \/ Near("3.14159265358979323846264338327950288", PiMid, "1e-34")
DigitsE == Near("2.71828182845904523536028747135266250", IMid(ExpE(1)), "1e-34") /\ Near("0.693147180559945309417232121458176568", Ln2Mid, "1e-35")
=============================================================================
