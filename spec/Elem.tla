-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elementary real functions.  Every call is a step without state: the     *)
(* value returned lies within the accuracy of the library of a rational    *)
(* enclosure of the mathematical value, over the whole domain, in every    *)
(* build.  The accuracies are those of the algorithms in use:              *)
(*   algebraic and exponential functions    a few units in the last place, *)
(*   arctangent (polynomial)                2e-8 relative,                 *)
(*   portable roots (Newton, 1e-8)          1e-8 relative,                 *)
(*   portable logarithm (24 terms)          4e-9 absolute,                 *)
(*   trigonometric functions                the rounding of the argument.  *)
(***************************************************************************)
EXTENDS Cplx, TLC

Tiny == "1e-307"          \* underflow
Max == "0x1.fffffffffffffp+1023"
\* r is within a (absolute) + b (relative to the enclosure) of the interval E
In(r, E, a, b) == LET w == RAdd(a, RMul(b, IAbsMax(E)))
                  IN  RIsNum(r) /\ RLe(RSub(E[1], w), r) /\ RLe(r, RAdd(E[2], w))
\* as In, where the value may exceed the range of doubles
Or(r, E, a, b) == IF RLt(Max, E[1]) THEN r = "inf" ELSE IF RLt(E[2], RNeg(Max)) THEN r = "-inf"
                  ELSE \/ In(r, E, a, b)
                       \/ RLt(RMul(Max, RSub(1, b)), E[2]) /\ r = "inf"
                       \/ RLt(E[1], RNeg(RMul(Max, RSub(1, b)))) /\ r = "-inf"
ku(n) == RMul(n, U)
RootAcc(p) == IF p THEN "1.1e-8" ELSE ku(4)
LnAcc(p) == IF p THEN "4e-9" ELSE "0"
\* the error of a trigonometric argument: the rounding of a few multiples of pi
ArgAcc(x) == RMul(ku(8), RAdd(1, RAbs(x)))
\* exponentials: e^floor(x) by repeated products of a rounded e
ExpAcc(x) == RMul(U, RAdd(40, RMul(4, RAbs(x))))
\* e^x, cut off far beyond the range of doubles
ExpB(x) == IF RLt(800, x) THEN <<R2Pow(1100), R2Pow(1101)>> ELSE IF RLt(x, -800) THEN <<"0", R2Pow(-1100)>> ELSE ExpE(x)
NthRoot(x, n) == IExp(IScale(RDiv(1, n), LnE(x)))      \* x > 0
SgnOf(x) == IF RLt(x, 0) THEN -1 ELSE IF RLt(0, x) THEN 1 ELSE 0
SinhE(x) == IScale("1/2", ISub(ExpB(x), ExpB(RNeg(x))))
CoshE(x) == IScale("1/2", IAdd(ExpB(x), ExpB(RNeg(x))))
LnPos(E) == ILn(E)
AsinhE(x) == LET p == ILn(IAdd(Pt(RAbs(x)), SqrtE(RAdd(1, RMul(x, x))))) IN IF RLt(x, 0) THEN INeg(p) ELSE p
AcoshE(x) == ILn(IAdd(Pt(x), IF REq(x, 1) THEN Pt(0) ELSE SqrtE(RSub(RMul(x, x), 1))))
AtanhE(x) == IScale("1/2", LnE(RDiv(RAdd(1, x), RSub(1, x))))
Small(x) == RLe(RAbs(x), 700)

\* where the divisor is within the rounding of the argument of zero
NearPole(e) == \/ e.f = "tan" /\ (RLt("1e15", RAbs(e.x)) \/ RLe(RAbs(CosE(e.x)[1]), RMul(32, ArgAcc(e.x))))
               \/ e.f = "cot" /\ (RLt("1e15", RAbs(e.x)) \/ RLe(RAbs(SinE(e.x)[1]), RMul(32, ArgAcc(e.x))))
ValOK(e) ==
  LET x == e.x r == e.r p == e.port IN
  CASE e.f = "sqrt" -> IF REq(x, 0) THEN REq(r, 0) ELSE In(r, SqrtE(x), 0, RootAcc(p))
    [] e.f = "cbrt" -> IF REq(x, 0) THEN REq(r, 0)
                       ELSE LET E == NthRoot(RAbs(x), 3) IN In(r, IF RLt(x, 0) THEN INeg(E) ELSE E, 0, "1.1e-8")
    [] e.f = "root" -> IF REq(x, 0) THEN (e.n > 0 => REq(r, 0))
                       ELSE LET m == IF e.n < 0 THEN -e.n ELSE e.n
                                E0 == NthRoot(RAbs(x), m)
                                E1 == IF RLt(x, 0) THEN INeg(E0) ELSE E0
                            IN  Or(r, IF e.n < 0 THEN IInv(E1) ELSE E1, 0, IF m = 3 \/ (m = 2 /\ p) THEN "1.1e-8" ELSE ku(200))
    [] e.f = "exp" -> Or(r, ExpB(x), Tiny, ExpAcc(x))
    [] e.f = "expm1" -> Or(r, ISub(ExpB(x), Pt(1)), IF RLt("0.00099", RAbs(x)) THEN ExpAcc(x) ELSE Tiny, RAdd("2e-13", ExpAcc(x)))
    [] e.f = "ln" -> In(r, LnE(x), LnAcc(p), ku(8))
    [] e.f = "log2" -> In(r, IDiv(LnE(x), Ball(Ln2Mid)), LnAcc(p), ku(8))
    [] e.f = "log10" -> In(r, IDiv(LnE(x), LnE(10)), LnAcc(p), ku(8))
    [] e.f = "powf" -> IF REq(x, 0) THEN (RLe(0, e.y) => REq(r, IF REq(e.y, 0) THEN 1 ELSE 0))
                       ELSE LET L == IScale(e.y, LnE(x)) IN
                            RLt(IAbsMax(L), 2000) =>
                              Or(r, IExp(L), Tiny, RAdd(ExpAcc(RMul(4, IAbsMax(L))), IF p THEN RMul("8e-9", RAbs(e.y)) ELSE "0"))
    [] e.f \in {"pow", "ipow"} -> IF REq(x, 0) THEN (e.n > 0 => REq(r, 0))
                      ELSE LET v == RPow(x, e.n) IN Or(r, Pt(v), Tiny, ku(4 + 2 * (IF e.n < 0 THEN -e.n ELSE e.n)))
    [] e.f = "sin" -> IF RLt(RAbs(x), 1) THEN In(r, SinE(x), Tiny, ku(16)) ELSE IF RLe(RAbs(x), "1e15") THEN In(r, SinE(x), ArgAcc(x), 0) ELSE RIsNum(r) /\ RLe(RAbs(r), RAdd(1, ku(8)))
    [] e.f = "cos" -> IF RLe(RAbs(x), "1e15") THEN In(r, CosE(x), ArgAcc(x), 0) ELSE RIsNum(r) /\ RLe(RAbs(r), RAdd(1, ku(8)))
    \* within the argument's error, s/c is the tangent of some angle; nothing is said next to a pole
    [] e.f = "tan" -> IF RLt(RAbs(x), "1/2") THEN In(r, IDiv(SinE(x), CosE(x)), Tiny, ku(32)) ELSE NearPole(e) \/ LET d == RMul(4, ArgAcc(x)) c == CosE(x) IN In(r, IDiv(SinE(x), c), RMul(RMul(4, d), RAdd(1, RDiv(1, RMul(c[1], c[1])))), ku(16))
    [] e.f = "cot" -> NearPole(e) \/ LET d == RMul(4, ArgAcc(x)) c == SinE(x) IN In(r, IDiv(CosE(x), c), RMul(RMul(4, d), RAdd(1, RDiv(1, RMul(c[1], c[1])))), ku(16))
    [] e.f = "atan" -> In(r, AtanE(x), 0, "2.5e-8")
    [] e.f = "asin" -> In(r, AsinE(x), IF RLt(RAbs(x), "1/2") THEN "0" ELSE "4e-8", "4e-8")
    [] e.f = "acos" -> In(r, AcosE(x), "6e-8", 0)
    [] e.f = "atan2" -> LET E == Atan2E(x, e.y) IN In(r, E, IF RLt(0, e.y) THEN Tiny ELSE "1e-15", "3e-8")
    [] e.f = "sinh" -> (RLt(709, RAbs(x)) /\ (r \in {"inf", "-inf"}) /\ (r = "inf") = RLt(0, x)) \/ Or(r, SinhE(x), ku(8), ExpAcc(x))
    [] e.f = "cosh" -> (RLt(709, RAbs(x)) /\ r = "inf") \/ Or(r, CoshE(x), 0, ExpAcc(x))
    [] e.f = "tanh" -> IF RLt(700, RAbs(x)) THEN REq(r, SgnOf(x)) ELSE In(r, IDiv(SinhE(x), CoshE(x)), ku(64), ku(64))
    [] e.f = "coth" -> IF RLt(700, RAbs(x)) THEN REq(r, SgnOf(x)) ELSE RLt(ku(256), RAbs(x)) => In(r, IDiv(CoshE(x), SinhE(x)), 0, RMul(ku(64), RAdd(1, RDiv(1, RAbs(x)))))
    [] e.f = "asinh" -> In(r, AsinhE(x), RAdd(LnAcc(p), RAdd(ku(8), IF p THEN "1.1e-8" ELSE "0")), ku(8))
    [] e.f = "acosh" -> In(r, AcoshE(x), RAdd(RAdd(LnAcc(p), "3e-8"), ku(8)), ku(8))
    [] e.f = "atanh" -> In(r, AtanhE(x), RAdd(LnAcc(p), RAdd(ku(8), RMul(ku(4), RDiv(1, RSub(1, RAbs(x)))))), ku(8))
    [] e.f = "sigmoid" -> In(r, IInv(IAdd(Pt(1), ExpB(RNeg(x)))), Tiny, ExpAcc(x))
    [] e.f = "sinc" -> IF REq(x, 0) THEN REq(r, 1)
                       ELSE LET q == RMul(PiMid, x) IN In(r, IDiv(SinE(q), Pt(q)), IF RLt(RAbs(q), 1) THEN "0" ELSE RMin(1, RDiv(RMul(4, ArgAcc(q)), RAbs(q))), ku(32))
    [] e.f = "heaviside" -> IF REq(x, 0) THEN REq(r, "1/2") ELSE (REq(r, IF RLt(0, x) THEN 1 ELSE 0) \/ (RLt(RAbs(x), R2Pow(-52)) /\ REq(r, "1/2")))
    [] e.f = "abs" -> REq(r, RAbs(x))
    [] e.f = "sgn" -> REq(r, SgnOf(x))
    [] e.f = "floor" -> REq(r, RFloor(x))
    [] e.f = "fract" -> In(r, Pt(RSub(x, RFloor(x))), ku(1), 0) /\ RLe(0, r)
    \* the branchless variants round the sum
    [] e.f = "max" -> Near(r, RMax(x, e.y), IF e.br THEN RMul(U, RAdd(RAbs(x), RAbs(e.y))) ELSE "0")
    [] e.f = "min" -> Near(r, RMin(x, e.y), IF e.br THEN RMul(U, RAdd(RAbs(x), RAbs(e.y))) ELSE "0")
    [] e.f = "clamp" -> REq(r, IF RLt(x, e.y) THEN e.y ELSE IF RLt(e.z, x) THEN e.z ELSE x)
    [] e.f = "square" -> Or(r, Pt(RMul(x, x)), Tiny, ku(2))
    [] e.f = "cube" -> Or(r, Pt(RMul(x, RMul(x, x))), Tiny, ku(4))
    [] e.f = "radians" -> In(r, IScale(RDiv(x, 180), PiE), Tiny, ku(4))
    [] e.f = "degrees" -> In(r, IDiv(Pt(RMul(x, 180)), PiE), Tiny, ku(4))

\* the constants are the doubles nearest to the numbers they name (or next to them)
ConstE(c) ==
  CASE c = "PHI" -> IScale("1/2", IAdd(Pt(1), SqrtE(5))) [] c = "INVPHI" -> IScale("1/2", ISub(SqrtE(5), Pt(1)))
    [] c = "PI" -> PiE [] c = "PI2" -> IScale("1/2", PiE) [] c = "PI4" -> IScale("1/4", PiE) [] c = "PIDOUBLE" -> IScale(2, PiE) [] c = "TAU" -> IScale(2, PiE)
    [] c = "INVPI" -> IInv(PiE) [] c = "SQRTPI" -> ISqrt(PiE) [] c = "E" -> ExpE(1)
    [] c = "LOG2E" -> IInv(LnE(2)) [] c = "LOG210" -> IDiv(LnE(10), LnE(2)) [] c = "LOG10E" -> IInv(LnE(10)) [] c = "LN2" -> LnE(2) [] c = "LN10" -> LnE(10)
    [] c = "DEG2RAD" -> IScale("1/180", PiE) [] c = "RAD2DEG" -> IScale(180, IInv(PiE))
    [] c = "SQRT2" -> SqrtE(2) [] c = "INVSQR2" -> IInv(SqrtE(2)) [] c = "SQRT3" -> SqrtE(3)
(***************************************************************************)
(* The machine: the calls made so far and what they returned.  A call      *)
(* returns a value of its function, reports no error on its domain, and    *)
(* returns the same value whenever it is repeated.                         *)
(***************************************************************************)
Key(e) == <<e.f, e.x, e.y, e.z, e.n>>
EStep(s, e) == IF e.op = "const" THEN In(e.r, ConstE(e.f), 0, ku(1))
               ELSE (e.err = 0 \/ NearPole(e)) /\ (\A m \in s : m[1] = Key(e) => m[2] = e.r) /\ ValOK(e)
ENext(s, e) == IF e.op = "const" THEN s ELSE s \cup {<<Key(e), e.r>>}
Elem0 == {}
=============================================================================
