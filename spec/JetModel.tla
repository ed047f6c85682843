------------------------------ MODULE JetModel ------------------------------
(***************************************************************************)
(* Two registers hold an expression both as a polynomial and as a jet      *)
(* (value, first, second derivative) at the point x.  Whatever the history *)
(* of operations, the jet encloses the value of the polynomial and of its  *)
(* derivatives (the chain, product and quotient rules are right), and the  *)
(* functions satisfy their identities together with their derivatives.     *)
(***************************************************************************)
EXTENDS Jet
CONSTANT Depth
VARIABLES x, p, j, n
vars == <<x, p, j, n>>
Points == {"0", "1", "-2", "1/3"}
Consts == {"2", "-1/2"}
X(a) == Num(Pt(a), <<Pt("1")>>, <<Pt("0")>>)
Init == x \in Points /\ p = <<<<"0", "1">>, <<"1", "1">>>> /\ j = <<X(x), JAdd(X(x), JConst("1", X(x)))>> /\ n = 0
Bin(o, P, Q) == CASE o = "+" -> YAdd(P, Q) [] o = "-" -> YSub(P, Q) [] o = "*" -> YMul(P, Q)
Next == /\ n < Depth /\ n' = n + 1 /\ x' = x
        /\ \/ \E o \in {"+", "-", "*"}, a \in 1..2, b \in 1..2, d \in 1..2 :
                p' = [p EXCEPT ![d] = Bin(o, p[a], p[b])] /\ j' = [j EXCEPT ![d] = Arith(o, j[a], j[b])]
           \/ \E o \in {"+", "*"}, q \in Consts, d \in 1..2 :
                p' = [p EXCEPT ![d] = Bin(o, p[d], <<q>>)] /\ j' = [j EXCEPT ![d] = Arith(o, j[d], JConst(q, j[d]))]
           \/ \E k \in {0, 1, 3}, d \in 1..2 : Len(p[d]) < 6 /\
                p' = [p EXCEPT ![d] = IF k = 0 THEN <<"1">> ELSE IF k = 1 THEN @ ELSE YMul(@, YMul(@, @))] /\ j' = [j EXCEPT ![d] = JPow(@, k)]
Jet3(P) == [a |-> YVal(P, x), b |-> <<YVal(YDer(P), x)>>, c |-> <<YVal(YDer(YDer(P)), x)>>]
\* the enclosures are tight: wider than the exact value only by rounding
Tight(I) == RLe(RSub(I[2], I[1]), RMul("1e-9", RAdd(1, IAbsMax(I))))
Derivatives == \A d \in 1..2 : j[d].k = "num" /\ InJet(Jet3(p[d]), j[d]) /\ Tight(j[d].a) /\ Tight(j[d].b[1]) /\ Tight(j[d].c[1])
TightM(I) == RLe(RSub(I[2], I[1]), RMul("1e-5", RAdd(1, IAbsMax(I))))
\* jets compared as enclosures: they meet
Meet(y, z) == y.k # "num" \/ z.k # "num" \/ (IMeet(y.a, z.a) /\ IMeet(y.b[1], z.b[1]) /\ IMeet(y.c[1], z.c[1]) /\ (TightM(y.c[1]) \/ RLt(100, IAbsMax(y.c[1]))))
Sq(y) == JMul(y, y)
One_(y) == JConst("1", y)
SmallJ(y) == n <= 1 /\ RLe(IAbsMax(y.a), 3) /\ RLe(IAbsMax(y.b[1]), 8) /\ RLe(IAbsMax(y.c[1]), 8)
Identities ==
  \A d \in 1..2 :
    LET y == j[d] F(f) == JFun(f, y) IN SmallJ(y) =>
      /\ Meet(JAdd(Sq(F("sin")), Sq(F("cos"))), One_(y))
      /\ Meet(F("tan"), JDiv(F("sin"), F("cos"))) /\ Meet(F("cot"), JDiv(F("cos"), F("sin")))
      /\ Meet(JFun("ln", F("exp")), y) /\ Meet(JMul(F("exp"), JFun("exp", JNeg(y))), One_(y))
      /\ Meet(JMul(JFun("log2", F("exp")), JFun("ln", JConst("2", y))), y)
      /\ Meet(JMul(JFun("log10", F("exp")), JFun("ln", JConst("10", y))), y)
      /\ Meet(JSub(Sq(F("cosh")), Sq(F("sinh"))), One_(y)) /\ Meet(F("tanh"), JDiv(F("sinh"), F("cosh")))
      /\ Meet(Sq(JFun("sqrt", JAdd(One_(y), Sq(y)))), JAdd(One_(y), Sq(y)))
      /\ Meet(JFun("tan", F("atan")), y)
      /\ (RLt(IAbsMax(y.a), "99/100") => Meet(JFun("sin", F("asin")), y) /\ Meet(JFun("cos", F("acos")), y))
      /\ Meet(JMul(JInv(y), y), One_(y)) /\ Meet(JPow(y, -2), JInv(Sq(y))) /\ Meet(JDiv(j[1], y), JMul(j[1], JInv(y)))
      /\ (HasZero(y.a) \/ Meet(Sq(F("abs")), Sq(y))) /\ Meet(JConj(JConj(y)), y)
=============================================================================
