-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational (and integer) arithmetic on numbers of any size.         *)
(*                                                                         *)
(* A number is denoted either by a TLC integer or by a string: "p", "p/q", *)
(* a decimal "1.5e-3" or a C hexadecimal float "0x1.8p-3" (the form in     *)
(* which the harness logs every double, so that logged values are exact).  *)
(* Results are canonical: "p" or "p/q" in lowest terms with q > 1; hence   *)
(* two results are equal as strings iff they are equal as numbers.         *)
(*                                                                         *)
(* "nan", "inf" and x/0 denote no number: arithmetic on them gives "nan"   *)
(* and every comparison with them is FALSE.                                *)
(*                                                                         *)
(* RNum and RDen give numerator and denominator; every other operator is   *)
(* defined from them with ordinary arithmetic.  TLC evaluates the module   *)
(* through java/Rat.java (BigInteger), because TLC integers are 32-bit;    *)
(* RatSelfTest.tla compares the override with TLC's own arithmetic.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Undefined(x) == CHOOSE y : y = x

RIsNum(a) == Undefined(a)          \* TRUE iff a denotes a finite number (not nan / inf)
RNum(a)   == Undefined(a)
RDen(a)   == Undefined(a)
RCanon(a) == Undefined(a)          \* canonical denotation

LOCAL Mk(p, q) == RCanon(<<p, q>>)

RAdd(a, b) == Mk(RNum(a) * RDen(b) + RNum(b) * RDen(a), RDen(a) * RDen(b))
RSub(a, b) == Mk(RNum(a) * RDen(b) - RNum(b) * RDen(a), RDen(a) * RDen(b))
RMul(a, b) == Mk(RNum(a) * RNum(b), RDen(a) * RDen(b))
RDiv(a, b) == Mk(RNum(a) * RDen(b), RDen(a) * RNum(b))
RNeg(a)    == Mk(-RNum(a), RDen(a))
RLe(a, b)  == RNum(a) * RDen(b) <= RNum(b) * RDen(a)
RLt(a, b)  == RNum(a) * RDen(b) <  RNum(b) * RDen(a)
REq(a, b)  == RNum(a) * RDen(b) =  RNum(b) * RDen(a)
RAbs(a)    == IF RLt(a, 0) THEN RNeg(a) ELSE a
RSign(a)   == IF RLt(a, 0) THEN -1 ELSE IF RLt(0, a) THEN 1 ELSE 0
RFloor(a)  == RNum(a) \div RDen(a)
RPow(a, k) == IF k >= 0 THEN Mk(RNum(a)^k, RDen(a)^k) ELSE Mk(RDen(a)^(-k), RNum(a)^(-k))
R2Pow(k)   == RPow(2, k)
RToInt(a)  == RNum(a)              \* as a TLC integer (must fit)
RDown(a, k) == RDiv(RFloor(RMul(a, R2Pow(k))), R2Pow(k))
RUp(a, k)   == RNeg(RDown(RNeg(a), k))

\* recursive functions rather than RECURSIVE operators, so that TLC sees constants as constants
RSum(s)    == LET f[i \in 0..Len(s)] == IF i = 0 THEN "0" ELSE RAdd(f[i - 1], s[i]) IN f[Len(s)]
RProd(s)   == LET f[i \in 0..Len(s)] == IF i = 0 THEN "1" ELSE RMul(f[i - 1], s[i]) IN f[Len(s)]
RSumAbs(s) == RSum([i \in 1..Len(s) |-> RAbs(s[i])])
RMaxAbs(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN "0"
                                        ELSE IF RLt(f[i - 1], RAbs(s[i])) THEN RAbs(s[i]) ELSE f[i - 1]
              IN f[Len(s)]
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
RDotAbs(s, t) == RSumAbs([i \in 1..Len(s) |-> RMul(s[i], t[i])])

RExp2(a) == CHOOSE k \in Int : RLe(R2Pow(k), RAbs(a)) /\ RLt(RAbs(a), R2Pow(k + 1))
\* c[1] + c[2] x + c[3] x^2 + ..., exactly and rounded down to a multiple of 2^-k after each step
RPoly(c, x) == LET f[i \in 1..(Len(c) + 1)] == IF i > Len(c) THEN "0" ELSE RAdd(c[i], RMul(x, f[i + 1])) IN f[1]
RHorner(c, x, k) ==
  LET f[i \in 1..(Len(c) + 1)] == IF i > Len(c) THEN "0" ELSE RDown(RAdd(c[i], RMul(x, f[i + 1])), k) IN f[1]

ZDiv(a, b) == RFloor(RDiv(a, b))
ZMod(a, b) == RSub(a, RMul(b, ZDiv(a, b)))
ZShl(a, k) == RMul(a, R2Pow(k))
ZShr(a, k) == RFloor(RMul(a, R2Pow(-k)))
\* bitwise operators on naturals, bit by bit
ZBits(a, b, t) ==     \* t[i]: the result bit when i - 1 of the two bits are set
  LET n == 1 + RExp2(RAdd(1, RAdd(a, b)))
  IN  RSum([k \in 1..n |-> RMul(R2Pow(k - 1), t[1 + RToInt(RAdd(ZMod(ZShr(a, k - 1), 2), ZMod(ZShr(b, k - 1), 2)))])])
ZAnd(a, b) == ZBits(a, b, <<0, 0, 1>>)
ZOr(a, b)  == ZBits(a, b, <<0, 1, 1>>)
ZXor(a, b) == ZBits(a, b, <<0, 1, 0>>)
ZSqrt(a)   == CHOOSE r \in Nat : RLe(r * r, a) /\ RLt(a, (r + 1) * (r + 1))

\* Append the tokens of seq as one line of file (behaviours handed to the replayer).
Emit(file, seq) == TRUE

\* The value itself; TLC evaluates function expressions lazily and again at each use, this does it at once.
Eager(x) == x

\* A constant that TLC need only evaluate once, under the name k.
Once(k, x) == x

(***************************** derived **********************************)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RSq(a)     == RMul(a, a)
RIsInt(a)  == RDen(a) = "1"
RInv(a)    == RDiv(1, a)
\* |x - y| <= t for a logged value x (which must be a finite number)
Near(x, y, t) == RIsNum(x) /\ RLe(RAbs(RSub(x, y)), t)
\* unit of rounding slack: |x - y| <= k * 2^-52 * scale
Ulps(x, y, k, scale) == Near(x, y, RMul(RMul(k, R2Pow(-52)), scale))
InEncl(x, e, t) == /\ RIsNum(x)
                   /\ RLe(RSub(e[1], t), x)
                   /\ RLe(x, RAdd(e[2], t))
============================================================================
