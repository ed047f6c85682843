-------------------------------- MODULE Jet ---------------------------------
(***************************************************************************)
(* Automatic differentiation.  A jet is a value, its n first derivatives   *)
(* and (for n = 1, optionally) its second derivative.  Operations are      *)
(* specified on enclosures of jets: every operation encloses the exact     *)
(* result for every exact operand in the enclosures, widened by the        *)
(* rounding a floating-point evaluation may add, so that an evaluated      *)
(* expression must lie in the enclosure the specification computes for the *)
(* same expression.                                                        *)
(*                                                                         *)
(*   [k |-> "num", a |-> I, b |-> <<I,...>>, c |-> <<>> or <<I>>]          *)
(*   [k |-> "bad"]   the operation is undefined and must be refused        *)
(*   [k |-> "any"]   too close to a singularity or an overflow to tell     *)
(***************************************************************************)
EXTENDS Poly

Bad == [k |-> "bad"]
Any == [k |-> "any"]
Num(a, b, c) == [k |-> "num", a |-> a, b |-> b, c |-> c]

(* outward rounding to 150 significant bits, then widening by w *)
Out(I, w) == LET m == IAbsMax(I)
                 q == IF REq(m, 0) THEN 0 ELSE 150 - RExp2(m)
             IN  IF REq(m, 0) THEN <<RNeg(w), RCanon(w)>> ELSE <<RSub(RDown(I[1], q), w), RAdd(RUp(I[2], q), w)>>
\* k units of rounding of the terms, rounded up to a short number; 1e-250 stands for underflow
Up20(t) == IF RLe(t, 0) THEN "0" ELSE RUp(t, 20 - RExp2(t))
Infl(I, k, terms) == Eager(Out(I, IF REq(terms, 0) THEN "0" ELSE Up20(RMul(RMul(k, U), RMax(terms, "1e-250")))))
Rnd(I, k) == Infl(I, k, IAbsMax(I))
Huge(I) == RLt("1e140", IAbsMax(I))
Fit(x) == IF x.k # "num" THEN x
          ELSE IF Huge(x.a) \/ (\E i \in 1..Len(x.b) : Huge(x.b[i])) \/ (\E i \in 1..Len(x.c) : Huge(x.c[i])) THEN Any ELSE x
HasZero(I) == RLe(I[1], 0) /\ RLe(0, I[2])
IsZero(I) == REq(I[1], 0) /\ REq(I[2], 0)

\* the jet of a constant, with the shape of x
JConst(q, x) == Num(Pt(q), [i \in 1..Len(x.b) |-> Pt("0")], [i \in 1..Len(x.c) |-> Pt("0")])
JOf(r) == IF ~RIsNum(r.a) \/ (\E i \in 1..Len(r.b) : ~RIsNum(r.b[i])) \/ (\E i \in 1..Len(r.c) : ~RIsNum(r.c[i])) THEN Any
          ELSE Num(Pt(r.a), [i \in 1..Len(r.b) |-> Pt(r.b[i])], [i \in 1..Len(r.c) |-> Pt(r.c[i])])

Lift1(x, Op(_)) == IF x.k = "num" THEN Fit(Op(x)) ELSE IF x.k = "bad" THEN Any ELSE x
Lift2(x, y, Op(_, _)) == IF x.k = "num" /\ y.k = "num" THEN Fit(Op(x, y)) ELSE Any

Each(s, Op(_)) == Eager([i \in 1..Len(s) |-> Op(s[i])])
Each2(s, t, Op(_, _)) == Eager([i \in 1..Len(s) |-> Op(s[i], t[i])])
T2(I, J) == RMul(IAbsMax(I), IAbsMax(J))

JNeg(x) == LET G(v) == Num(INeg(v.a), Each(v.b, INeg), Each(v.c, INeg)) IN Lift1(x, G)
JConj(x) == LET G(v) == Num(v.a, Each(v.b, INeg), Each(v.c, INeg)) IN Lift1(x, G)
LOCAL PlusI(I, J) == Rnd(IAdd(I, J), 1)
LOCAL MinusI(I, J) == Rnd(ISub(I, J), 1)
JAdd(x, y) == LET G(v, w) == Num(PlusI(v.a, w.a), Each2(v.b, w.b, PlusI), Each2(v.c, w.c, PlusI)) IN Lift2(x, y, G)
JSub(x, y) == LET G(v, w) == Num(MinusI(v.a, w.a), Each2(v.b, w.b, MinusI), Each2(v.c, w.c, MinusI)) IN Lift2(x, y, G)
JMul(x, y) ==
  LET G(v, w) == Num(Rnd(IMul(v.a, w.a), 1),
                     Eager([i \in 1..Len(v.b) |-> Infl(IAdd(IMul(v.a, w.b[i]), IMul(v.b[i], w.a)), 3, RAdd(T2(v.a, w.b[i]), T2(v.b[i], w.a)))]),
                     Eager([i \in 1..Len(v.c) |->
                        Infl(IAdd(IAdd(IMul(v.a, w.c[i]), IScale(2, IMul(v.b[i], w.b[i]))), IMul(v.c[i], w.a)), 5,
                             RAdd(RAdd(T2(v.a, w.c[i]), RMul(2, T2(v.b[i], w.b[i]))), T2(v.c[i], w.a)))]))
  IN Lift2(x, y, G)

(* f(x) from enclosures F = <<f, f', f''>> of f and its derivatives on x.a, allowing the library's accuracy *)
Chain(v, F) == Num(F[1], Eager([i \in 1..Len(v.b) |-> Rnd(IMul(F[2], v.b[i]), 6)]),
                   Eager([i \in 1..Len(v.c) |-> Infl(IAdd(IMul(F[3], IMul(v.b[i], v.b[i])), IMul(F[2], v.c[i])), 8,
                                                RAdd(RMul(IAbsMax(F[3]), RSq(IAbsMax(v.b[i]))), T2(F[2], v.c[i])))]))
IPow(I, n) == IF n = 0 THEN Pt("1") ELSE IF n = 1 THEN I
              ELSE IF n % 2 = 1 THEN <<RPow(I[1], n), RPow(I[2], n)>>
              ELSE IF HasZero(I) THEN <<"0", RPow(IAbsMax(I), n)>>
              ELSE LET p == RPow(I[1], n) q == RPow(I[2], n) IN <<RMin(p, q), RMax(p, q)>>
ISq(I) == IPow(I, 2)

JInv(x) == LET G(v) == IF IsZero(v.a) THEN Bad ELSE IF HasZero(v.a) THEN Any
                       ELSE Chain(v, <<Rnd(IInv(v.a), 2), Rnd(INeg(IInv(ISq(v.a))), 4), Rnd(IScale(2, IInv(IPow(v.a, 3))), 6)>>)
           IN Lift1(x, G)
JDiv(x, y) ==
  LET G(v, w) ==
        IF IsZero(w.a) THEN Bad ELSE IF HasZero(w.a) THEN Any
        ELSE LET i1 == IInv(w.a) i2 == IInv(ISq(w.a)) i3 == IInv(IPow(w.a, 3)) IN
             Num(Rnd(IMul(v.a, i1), 3),
                 Eager([i \in 1..Len(v.b) |-> Infl(ISub(IMul(v.b[i], i1), IMul(IMul(v.a, w.b[i]), i2)), 8,
                                             RAdd(T2(v.b[i], i1), RMul(IAbsMax(v.a), T2(w.b[i], i2))))]),
                 Eager([i \in 1..Len(v.c) |->
                    LET p == IMul(v.c[i], i1)
                        q == IScale(2, IMul(IMul(v.b[i], w.b[i]), i2))
                        r == IMul(IMul(v.a, w.c[i]), i2)
                        s == IScale(2, IMul(v.a, IMul(ISq(w.b[i]), i3)))
                    IN  Infl(IAdd(ISub(ISub(p, q), r), s), 16, RAdd(RAdd(IAbsMax(p), IAbsMax(q)), RAdd(IAbsMax(r), IAbsMax(s))))]))
  IN Lift2(x, y, G)

\* n-th power; n and the exponents of the derivatives may be negative
LOCAL IZPow(I, n) == IF n >= 0 THEN IPow(I, n) ELSE IInv(IPow(I, -n))
JPow(x, n) ==
  LET G(v) == IF n < 0 /\ HasZero(v.a) THEN Any
              ELSE LET w == 4 + 2 * (IF n < 0 THEN -n ELSE n)
                       d0 == IF n = 0 THEN Pt("1") ELSE Rnd(IZPow(v.a, n), w)
                       d1 == IF n = 0 THEN Pt("0") ELSE Rnd(IScale(n, IZPow(v.a, n - 1)), w)
                       d2 == IF n \in {0, 1} THEN Pt("0") ELSE Rnd(IScale(n * (n - 1), IZPow(v.a, n - 2)), w)
                   IN  Chain(v, <<d0, d1, d2>>)
  IN Lift1(x, G)

(* elementary functions; W(I, t) allows the absolute error t *)
LOCAL W(I, t) == Eager(Out(I, Up20(t)))
LOCAL TrigTol(I) == RMul("4e-16", RAdd(1, IAbsMax(I)))
Trig(I) == RLe(IAbsMax(I), "1e6")
SinL(I) == W(ISin(I), TrigTol(I))
CosL(I) == W(ICos(I), TrigTol(I))
LOCAL Away0(I) == RLt("1e-4", I[1]) \/ RLt(I[2], "-1e-4")
LOCAL RelW(I, t) == W(I, RMul(t, IAbsMax(I)))
ExpL(I) == W(IExp(I), RMul(RMul("6e-16", RAdd(10, IAbsMax(I))), IExp(I)[2]))
LOCAL LnL(I) == W(ILn(I), RMul("1e-15", RAdd(1, IAbsMax(ILn(I)))))
LOCAL Sm(I) == RLe(IAbsMax(I), 300)
One(I) == IAdd(Pt("1"), I)
Ln10E == Once("ln10", LnE(10))
JFun(f, x) ==
  LET G(v) ==
    LET a == v.a IN
    CASE f = "sqrt" ->
           (IF RLt(a[2], 0) \/ IsZero(a) THEN Bad ELSE IF RLe(a[1], 0) THEN Any
            ELSE LET s == Rnd(ISqrt(a), 4) IN Chain(v, <<s, Rnd(IScale("1/2", IInv(s)), 4), Rnd(IScale("-1/4", IInv(IMul(a, s))), 6)>>))
      [] f = "sin" -> (IF ~Trig(a) THEN Any ELSE LET s == SinL(a) IN Chain(v, <<s, CosL(a), INeg(s)>>))
      [] f = "cos" -> (IF ~Trig(a) THEN Any ELSE LET c == CosL(a) IN Chain(v, <<c, INeg(SinL(a)), INeg(c)>>))
      [] f = "tan" -> (IF ~Trig(a) \/ ~Away0(CosL(a)) THEN Any
                       ELSE LET c == CosL(a) t == Rnd(IDiv(SinL(a), c), 4) IN Chain(v, <<t, Rnd(IInv(ISq(c)), 4), Rnd(IScale(2, IDiv(t, ISq(c))), 8)>>))
      [] f = "cot" -> (IF IsZero(a) THEN Bad ELSE IF ~Trig(a) \/ ~Away0(SinL(a)) THEN Any
                       ELSE LET s == SinL(a) t == Rnd(IDiv(CosL(a), s), 4) IN Chain(v, <<t, Rnd(INeg(IInv(ISq(s))), 4), Rnd(IScale(2, IDiv(t, ISq(s))), 8)>>))
      [] f = "exp" -> (IF ~Sm(a) THEN Any ELSE LET e == ExpL(a) IN Chain(v, <<e, e, e>>))
      [] f \in {"ln", "log2", "log10"} ->
           (IF RLe(a[2], 0) THEN Bad ELSE IF RLe(a[1], 0) THEN Any
            ELSE LET k == IF f = "ln" THEN Pt("1") ELSE IF f = "log2" THEN IInv(<<RSub(Ln2Mid, E_R0), RAdd(Ln2Mid, E_R0)>>) ELSE IInv(Ln10E)
                 IN  Chain(v, <<Rnd(IMul(k, LnL(a)), 6), Rnd(IMul(k, IInv(a)), 6), Rnd(INeg(IMul(k, IInv(ISq(a)))), 8)>>))
      [] f = "abs" -> (IF HasZero(a) THEN (IF IsZero(a) THEN Num(Pt("0"), Each(v.b, LAMBDA i : <<RNeg(IAbsMax(i)), IAbsMax(i)>>), Each(v.c, LAMBDA i : <<RNeg(IAbsMax(i)), IAbsMax(i)>>)) ELSE Any)
                       ELSE IF RLt(0, a[1]) THEN v ELSE JNeg(v))
      [] f \in {"asin", "acos"} ->
           (IF RLe(1, IAbsMax(a)) THEN (IF RLe(a[2], -1) \/ RLe(1, a[1]) THEN Bad ELSE Any)
            ELSE LET q == Infl(ISub(Pt("1"), ISq(a)), 2, 2) IN
                 IF RLe(q[1], "1e-12") THEN Any
                 ELSE LET s == ISqrt(q)
                          v0 == IF f = "asin" THEN <<AsinE(a[1])[1], AsinE(a[2])[2]>> ELSE <<AcosE(a[2])[1], AcosE(a[1])[2]>>
                          g == IF f = "asin" THEN "1" ELSE "-1"
                      IN  Chain(v, <<W(v0, AtanAcc), Rnd(IScale(g, IInv(s)), 4), Rnd(IScale(g, IDiv(a, IMul(q, s))), 8)>>))
      [] f = "atan" -> LET q == Rnd(One(ISq(a)), 3) IN
                       Chain(v, <<W(IAtan(a), AtanAcc), Rnd(IInv(q), 3), Rnd(IScale(-2, IDiv(a, ISq(q))), 8)>>)
      [] f \in {"sinh", "cosh"} ->
           (IF ~Sm(a) THEN Any
            ELSE LET p == ExpL(a) m == ExpL(INeg(a)) t == RAdd(p[2], m[2])
                     sh == Infl(IScale("1/2", ISub(p, m)), 4, t)
                     ch == Infl(IScale("1/2", IAdd(p, m)), 4, t)
                 IN  Chain(v, IF f = "sinh" THEN <<sh, ch, sh>> ELSE <<ch, sh, ch>>))
      [] f = "tanh" ->
           (IF RLt(IAbsMax(a), 300)
            THEN LET p == ExpL(a) m == ExpL(INeg(a)) t == IAdd(p, m)
                     th == Infl(IDiv(ISub(p, m), t), 8, 1)
                     d == Rnd(IScale(4, IInv(ISq(t))), 8)
                 IN  Chain(v, <<th, d, IScale(-2, IMul(th, d))>>)
            ELSE IF RLe(0, a[1]) THEN Chain(v, <<Pt("1"), <<"-1e-200", "1e-200">>, <<"-1e-200", "1e-200">>>>)
            ELSE Chain(v, <<Pt("-1"), <<"-1e-200", "1e-200">>, <<"-1e-200", "1e-200">>>>))
  IN Lift1(x, G)

(***************************** acceptance **********************************)
InI(r, I) == RIsNum(r) /\ RLe(I[1], r) /\ RLe(r, I[2])
InJet(r, x) == /\ InI(r.a, x.a)
               /\ Len(r.b) = Len(x.b) /\ \A i \in 1..Len(x.b) : InI(r.b[i], x.b[i])
               /\ Len(r.c) = Len(x.c) /\ \A i \in 1..Len(x.c) : InI(r.c[i], x.c[i])
IsBad(r) == r.a = "nan" /\ (\A i \in 1..Len(r.b) : r.b[i] = "nan") /\ (\A i \in 1..Len(r.c) : r.c[i] = "nan")
JetOK(r, x, err) == CASE x.k = "num" -> err = 0 /\ InJet(r, x)
                      [] x.k = "bad" -> err # 0 /\ IsBad(r)
                      [] x.k = "any" -> TRUE
Arith(f, x, y) == CASE f = "+" -> JAdd(x, y) [] f = "-" -> JSub(x, y) [] f = "*" -> JMul(x, y) [] f = "/" -> JDiv(x, y)
One1(f, n, x) == CASE f = "neg" -> JNeg(x) [] f = "id" -> x [] f = "conj" -> JConj(x) [] f = "inverse" -> JInv(x)
                   [] f = "square" -> JMul(x, x) [] f = "cube" -> JMul(JMul(x, x), x) [] f = "pow" -> JPow(x, n) [] OTHER -> JFun(f, x)

(* The machine: s is a sequence of registers, each a jet as last observed.
   e.regs are the registers after the event; only register e.k may change. *)
SameR(p, q) == p = q \/ (JOf(p).k = "num" /\ JOf(q).k = "num" /\ InJet(p, JOf(q)))
Others(s, e) == Len(e.regs) = Len(s) /\ \A i \in 1..Len(s) : i # e.k => SameR(e.regs[i], s[i])
D0 == <<>>
DStep(s, e) ==
  IF e.op = "init" THEN Len(e.regs) = Len(e.vals) /\ \A i \in 1..Len(e.regs) : SameR(e.regs[i], e.vals[i])
  ELSE /\ Others(s, e)
       /\ LET r == e.regs[e.k] IN
          CASE e.op = "bin" -> JetOK(r, Arith(e.f, JOf(s[e.i]), JOf(s[e.j])), e.err)
            [] e.op = "binr" -> JetOK(r, Arith(e.f, JOf(s[e.i]), JConst(e.x, s[e.i])), e.err)
            [] e.op = "rbin" -> JetOK(r, Arith(e.f, JConst(e.x, s[e.i]), JOf(s[e.i])), e.err)
            [] e.op = "un" -> JetOK(r, One1(e.f, e.n, JOf(s[e.i])), e.err)
            [] e.op = "asgn" -> e.err = 0 /\ REq(r.a, e.x) /\ (\A i \in 1..Len(r.b) : REq(r.b[i], 0)) /\ (\A i \in 1..Len(r.c) : REq(r.c[i], 0))
            [] e.op = "eq" -> SameR(r, s[e.k]) /\ e.eq = (JOf(s[e.i]).k = "num" /\ SameR(s[e.i], s[e.j]))
DNext(s, e) == e.regs
=============================================================================
