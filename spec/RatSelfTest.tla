---------------------------- MODULE RatSelfTest ----------------------------
\* TLC compares the Java override of Rat with TLC's own integer arithmetic.
EXTENDS Rat, TLC
CONSTANT B
VARIABLES p, q, r, s
vars == <<p, q, r, s>>
Init == p \in -B..B /\ q \in 1..B /\ r \in -B..B /\ s \in 1..B
Next == UNCHANGED vars
Mk2(a, b) == RDiv(a, b)
x == Mk2(p, q)
y == Mk2(r, s)
Gcd(a, b) == CHOOSE g \in 1..(B*B*B*B + 1) : a % g = 0 /\ b % g = 0 /\ \A h \in (g+1)..(B*B + 1) : ~(a % h = 0 /\ b % h = 0)
Same(a, n, d) == RToInt(RNum(a)) * d = n * RToInt(RDen(a)) /\ RToInt(RDen(a)) > 0
Ops == /\ Same(RAdd(x, y), p * s + r * q, q * s)
       /\ Same(RSub(x, y), p * s - r * q, q * s)
       /\ Same(RMul(x, y), p * r, q * s)
       /\ (r # 0 => Same(RDiv(x, y), IF r > 0 THEN p * s ELSE -(p * s), IF r > 0 THEN q * r ELSE -(q * r)))
       /\ Same(RNeg(x), -p, q)
       /\ RLe(x, y) = (p * s <= r * q)
       /\ RLt(x, y) = (p * s < r * q)
       /\ REq(x, y) = (p * s = r * q)
       /\ (x = y) = (p * s = r * q)
       /\ RSign(x) = (IF p > 0 THEN 1 ELSE IF p < 0 THEN -1 ELSE 0)
       /\ RToInt(RFloor(x)) = p \div q
       /\ Same(RPow(x, 3), p * p * p, q * q * q)
       /\ Same(RAbs(x), IF p < 0 THEN -p ELSE p, q)
       /\ RToInt(ZMod(p, q)) = p % q
       /\ RToInt(ZDiv(p, q)) = p \div q
       /\ (p >= 0 /\ r >= 0 =>
             /\ RToInt(ZAnd(p, r)) + RToInt(ZOr(p, r)) = p + r
             /\ RToInt(ZXor(p, r)) = RToInt(ZOr(p, r)) - RToInt(ZAnd(p, r))
             /\ RToInt(ZShr(p, 1)) = p \div 2 /\ RToInt(ZShl(p, 2)) = 4 * p)
       /\ Same(RSum(<<x, y, x>>), 2 * p * s + r * q, q * s)
       /\ Same(RDot(<<x, 2>>, <<y, 3>>), p * r + 6 * q * s, q * s)
       /\ RLe(RDown(x, 3), x) /\ RLt(x, RAdd(RDown(x, 3), "1/8")) /\ RIsInt(RMul(8, RDown(x, 3)))
       /\ RLe(RDown(x, -2), x) /\ RLt(x, RAdd(RDown(x, -2), 4)) /\ RIsInt(RDiv(RDown(x, -2), 4)) /\ RLe(x, RUp(x, -2)) /\ RLt(RSub(RUp(x, -2), 4), x)
       /\ RLe(x, RUp(x, 3)) /\ RLt(RSub(RUp(x, 3), "1/8"), x) /\ RIsInt(RMul(8, RUp(x, 3)))
Misc == /\ REq("0x1.8p-3", "3/16") /\ REq("1.5e-1", "3/20") /\ REq("-0x1p+70", RNeg(R2Pow(70)))
        /\ ~RIsNum("nan") /\ ~RIsNum("-nan") /\ ~RIsNum("inf") /\ ~RIsNum("-inf") /\ RIsNum("-0x0p+0")
        /\ RAdd("9223372036854775807", 1) = "9223372036854775808"
============================================================================
