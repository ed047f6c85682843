------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Sampling as a machine over the generator registers of Prng: every       *)
(* sampler consumes a definite number of draws and returns a definite      *)
(* function of them.  The two Gaussian pair methods keep the second value  *)
(* of a pair for the next call (registers polar and bm).                   *)
(***************************************************************************)
EXTENDS Prng, Encl

\* first n draws: <<values, generator afterwards>>
RECURSIVE Take(_, _, _)
Take(g, n, acc) == IF n = 0 THEN <<acc, g>> ELSE LET h == Draw(g) IN Take(h, n - 1, Append(acc, h.x))

DefPrec == "2147483648"
Dev(v, prec) == RDiv(ZMod(v, prec), prec)                \* uniform deviate in [0, 1)
UnifOf(v, a, b, prec) == RAdd(a, RMul(RSub(b, a), Dev(v, prec)))

Eps == R2Pow(-40)
Sens(v, k) == RMul(k, RAdd(1, RAbs(v)))
Close(r, e, k) == InEncl(r, e, RMul("1e-12", RMul(k, RAdd(1, IAbsMax(e)))))

Out(g, v) == [g |-> g, v |-> v]
One(s, e, F(_)) == LET t == Take(s[e.g], 1, <<>>) IN Out(t[2], F(t[1][1]))

ExpDev(u) == INeg(LnE(RSub(1, u)))        \* -ln(1 - u)

\* ln of the rounded sum of squares, which matters next to the circle
LnS(q) == ILn(<<RMul(q, RSub(1, R2Pow(-51))), RMin(1, RMul(q, RAdd(1, R2Pow(-51))))>>)
RECURSIVE PolarPair(_)
PolarPair(g) ==                            \* <<x, y, s, generator>>
  LET t == Take(g, 2, <<>>)
      x == UnifOf(t[1][1], -1, 1, DefPrec)
      y == UnifOf(t[1][2], -1, 1, DefPrec)
      q == RAdd(RSq(x), RSq(y))
  IN IF RLe(1, q) \/ RLe(q, R2Pow(-52)) THEN PolarPair(t[2]) ELSE <<x, y, q, t[2]>>

\* the first deviate of Box and Muller's method is not zero
RECURSIVE BMPair(_)
BMPair(g) == LET a == Draw(g) IN IF REq(Dev(a.x, DefPrec), 0) THEN BMPair(a) ELSE Take(g, 2, <<>>)

\* what one call must return (an enclosure) and the generator it must leave
Sample(s, e) ==
  CASE e.dist = "uniform" -> One(s, e, LAMBDA v : Pt(UnifOf(v, e.th[1], e.th[2], e.prec)))
    [] e.dist = "coin" -> One(s, e, LAMBDA v : Pt(IF REq(ZMod(v, 2), 0) THEN 1 ELSE -1))
    [] e.dist = "dice" -> One(s, e, LAMBDA v : Pt(RAdd(1, ZMod(v, RFloor(e.th[1])))))
    [] e.dist = "exponential" -> One(s, e, LAMBDA v : IScale(RDiv(1, e.th[1]), ExpDev(Dev(v, DefPrec))))
    [] e.dist = "rayleigh" -> One(s, e, LAMBDA v : IScale(e.th[1], ISqrt(IScale(2, ExpDev(Dev(v, DefPrec))))))
    [] e.dist = "cauchy" -> One(s, e, LAMBDA v : LET a == IScale(RSub(Dev(v, DefPrec), "1/2"), PiE)
                                                 IN IAdd(Pt(e.th[1]), IScale(e.th[2], IDiv(ISin(a), ICos(a)))))
    [] e.dist = "laplace" -> LET t == Take(s[e.g], 2, <<>>)
                                 u == UnifOf(t[1][1], 0, "1/2", DefPrec)
                                 c == IF REq(ZMod(t[1][2], 2), 0) THEN 1 ELSE -1
                             IN Out(t[2], ISub(Pt(e.th[1]), IScale(RMul(e.th[2], c), LnE(RSub(1, RMul(2, u))))))
    [] e.dist = "pareto" -> One(s, e, LAMBDA v : IScale(e.th[1], IExp(IScale(RDiv(1, e.th[2]), ExpDev(Dev(v, DefPrec))))))
    [] e.dist = "clt" -> LET t == Take(s[e.g], e.n, <<>>)
                             q == RSum([i \in 1..e.n |-> UnifOf(t[1][i], -1, 1, DefPrec)])
                         IN Out(t[2], IAdd(Pt(e.th[1]), IScale(RMul(e.th[2], RDiv(q, e.n)), SqrtE(3 * e.n))))
    [] e.dist = "polar" -> IF s.polar # <<>> THEN Out(s[e.g], IAdd(Pt(e.th[1]), IScale(e.th[2], s.polar)))
                           ELSE LET p == PolarPair(s[e.g])
                                    m == ISqrt(IScale(RDiv(-2, p[3]), LnS(p[3])))
                                IN Out(p[4], IAdd(Pt(e.th[1]), IScale(RMul(e.th[2], p[1]), m)))
    [] e.dist = "boxmuller" ->
         IF s.bm # <<>> THEN Out(s[e.g], IAdd(Pt(e.th[1]), IScale(e.th[2], s.bm)))
         ELSE LET t == BMPair(s[e.g])
                  m == ISqrt(IScale(-2, LnE(Dev(t[1][1], DefPrec))))
              IN Out(t[2], IAdd(Pt(e.th[1]), IScale(e.th[2], IMul(m, ICos(IScale(RMul(2, Dev(t[1][2], DefPrec)), PiE))))))

Spare(s, e) ==
  CASE e.dist = "polar" -> LET p == PolarPair(s[e.g]) IN IScale(p[2], ISqrt(IScale(RDiv(-2, p[3]), LnS(p[3]))))
    [] e.dist = "boxmuller" -> LET t == BMPair(s[e.g])
                                   m == ISqrt(IScale(-2, LnE(Dev(t[1][1], DefPrec))))
                               IN IMul(m, ISin(IScale(RMul(2, Dev(t[1][2], DefPrec)), PiE)))

\* the Cauchy distribution has no value at the deviate 0
NoValue(s, e) == e.dist = "cauchy" /\ REq(Dev(Draw(s[e.g]).x, DefPrec), 0)
SampleOK(s, e) == NoValue(s, e) \/ LET o == Sample(s, e) IN Close(e.r, o.v, IF e.dist = "cauchy" THEN RAdd(1, IAbsMax(o.v)) ELSE 1)
AfterSample(s, e) ==
  LET t == [s EXCEPT ![e.g] = Sample(s, e).g] IN
  CASE e.dist = "polar" -> [t EXCEPT !.polar = IF s.polar # <<>> THEN <<>> ELSE Spare(s, e)]
    [] e.dist = "boxmuller" -> [t EXCEPT !.bm = IF s.bm # <<>> THEN <<>> ELSE Spare(s, e)]
    [] OTHER -> t

(******************************* shuffling ********************************)
RECURSIVE Shuffled(_, _, _)
Shuffled(x, d, k) ==      \* d: the draws; k: pairs done
  IF 2 * k >= Len(d) THEN x
  ELSE LET i == RToInt(ZMod(d[2 * k + 1], Len(x))) + 1
           j == RToInt(ZMod(d[2 * k + 2], Len(x))) + 1
       IN Shuffled([x EXCEPT ![i] = x[j], ![j] = x[i]], d, k + 1)
Rounds(e) == IF e.rounds > 0 THEN e.rounds ELSE (Len(e.x) - 1) * (Len(e.x) - 1)

(***************************** rejection ************************************)
\* evaluation points xs with values fs were made; draws are consumed in pairs (x, y)
TryCatchOK(s, e) ==
  LET n == Len(e.xs)
      t == Take(s[e.g], 2 * n, <<>>)
      x == [i \in 1..n |-> UnifOf(t[1][2 * i - 1], e.x1, e.x2, DefPrec)]
      y == [i \in 1..n |-> UnifOf(t[1][2 * i], e.y1, e.y2, DefPrec)]
  IN /\ n >= 1 /\ n <= e.max + 1
     /\ \A i \in 1..n : Ulps(e.xs[i], x[i], 4, RAdd(RAbs(e.x1), RAbs(e.x2)))
     /\ \A i \in 1..(n - 1) : RLe(e.fs[i], RAdd(y[i], Eps))
     /\ IF n <= e.max THEN e.r = e.xs[n] /\ RLe(y[n], RAdd(e.fs[n], Eps)) ELSE e.r = "nan"
\* rejection from p = constant on [lo, hi] (inverse distribution lo + u (hi - lo))
RejectOK(s, e) ==
  LET n == Len(e.xs)
      t == Take(s[e.g], 2 * n, <<>>)
      x == [i \in 1..n |-> UnifOf(t[1][2 * i - 1], e.x1, e.x2, DefPrec)]
      u == [i \in 1..n |-> Dev(t[1][2 * i], DefPrec)]
      Acc(i) == RLt(RMul(u[i], e.pc), RAdd(e.fs[i], Eps))
      Rej(i) == RLe(e.fs[i], RAdd(RMul(u[i], e.pc), Eps))
  IN /\ n >= 1 /\ n <= e.max
     /\ \A i \in 1..n : Ulps(e.xs[i], x[i], 4, RAdd(RAbs(e.x1), RAbs(e.x2)))
     /\ \A i \in 1..(n - 1) : Rej(i)
     /\ IF RIsNum(e.r) THEN e.r = e.xs[n] /\ Acc(n) ELSE n = e.max /\ Rej(n)

(***************************** Metropolis ***********************************)
Lorentz(x) == RDiv(1, RAdd(1, RSq(x)))
RECURSIVE Walk(_, _, _, _, _, _)
Walk(s, ga, gb, w, x, depth) ==      \* <<state, final x>>; proposals uniform in [-w, w] from ga, acceptance from gb
  IF depth = 0 THEN <<s, x>>
  ELSE LET a == Draw(s[ga])
           s1 == [s EXCEPT ![ga] = a]
           y == RAdd(x, UnifOf(a.x, RNeg(w), w, DefPrec))
           b == Draw(s1[gb])
           s2 == [s1 EXCEPT ![gb] = b]
       IN Walk(s2, ga, gb, w, IF RLe(RMul(Dev(b.x, DefPrec), Lorentz(x)), Lorentz(y)) THEN y ELSE x, depth - 1)

(***************************** Monte Carlo **********************************)
Alpha1 == "0.6180339887498948482045868"
Alpha2 == "0.7548776662466927"
Frac(v) == RSub(v, RFloor(v))
\* x is f modulo 1 within t, and lies in [0, 1]
FracNear(x, f, t) == /\ RIsNum(x) /\ RLe(0, x) /\ RLe(x, 1)
                     /\ LET d == RAbs(RSub(x, Frac(f))) IN RLe(d, t) \/ RLe(RSub(1, t), d)
FracTol(n) == RMul(n + 4, R2Pow(-50))
\* alpha computed by a root finder is only as good as its tolerance (1e-8)
FracTolA(e, n) == IF e.approx THEN RMul(n + 1, "1e-7") ELSE FracTol(n)

Mean(r, fs, vol) == Ulps(r, RDiv(RMul(vol, RSum(fs)), Len(fs)), Len(fs) + 10, RDiv(RMul(RAbs(vol), RSumAbs(fs)), Len(fs)))
PtOK(x, a, b, v) == Ulps(x, UnifOf(v, a, b, DefPrec), 4, RAdd(RAbs(a), RAbs(b)))
\* number of hits f >= y, between the certain and the possible ones
Count(n, P(_)) == LET f[i \in 0..n] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF P(i) THEN 1 ELSE 0) IN f[n]
HitRange(fs, y) == <<Count(Len(fs), LAMBDA i : RLt(RAdd(y[i], Eps), fs[i])), Count(Len(fs), LAMBDA i : RLe(RSub(y[i], Eps), fs[i]))>>
\* r = (b - a) (c + (d - c) h / n) for a possible number of hits h
HitOK(r, fs, y, a, b, c, d) ==
  LET h == HitRange(fs, y) n == Len(fs) IN
    \E k \in h[1]..h[2] : Ulps(r, RMul(RSub(b, a), RAdd(c, RDiv(RMul(RSub(d, c), k), n))), 20,
                              RMul(RAbs(RSub(b, a)), RAdd(RAbs(c), RAbs(RSub(d, c)))))
McDraws(e) == CASE e.kind \in {"crude", "imp"} -> e.N
                [] e.kind \in {"crude2", "hom", "homf"} -> 2 * e.N
                [] e.kind = "hom2d" -> 3 * e.N
                [] OTHER -> 0
McOK(s, e) ==
  LET n == e.N
      v == Take(s[e.g], McDraws(e), <<>>)[1]
      Q(i, al, a, b, x) == \E f \in {"0"} : LET u == RDiv(RSub(x, a), RSub(b, a)) IN
                              LET d == RAbs(RSub(u, Frac(RMul(i, al)))) IN RLe(d, FracTolA(e, i)) \/ RLe(RSub(1, FracTolA(e, i)), d)
  IN /\ Len(e.fs) = n
     /\ CASE e.kind = "crude" -> (\A i \in 1..n : PtOK(e.xs[i], e.a, e.b, v[i])) /\ Mean(e.r, e.fs, RSub(e.b, e.a))
          [] e.kind = "crude2" -> /\ \A i \in 1..n : PtOK(e.xs[i], e.a, e.b, v[2 * i - 1]) /\ PtOK(e.ys[i], e.c, e.d, v[2 * i])
                                  /\ Mean(e.r, e.fs, RMul(RSub(e.b, e.a), RSub(e.d, e.c)))
          [] e.kind = "qcrude" -> (\A i \in 1..n : Q(i - 1, Alpha1, e.a, e.b, e.xs[i])) /\ Mean(e.r, e.fs, RSub(e.b, e.a))
          [] e.kind = "qcrude2" -> /\ \A i \in 1..n : Q(i - 1, e.alpha, e.a, e.b, e.xs[i]) /\ Q(i - 1, RSq(e.alpha), e.c, e.d, e.ys[i])
                                   /\ Mean(e.r, e.fs, RMul(RSub(e.b, e.a), RSub(e.d, e.c)))
          [] e.kind = "hom" -> /\ \A i \in 1..n : PtOK(e.xs[i], e.a, e.b, v[2 * i - 1])
                               /\ HitOK(e.r, e.fs, [i \in 1..n |-> UnifOf(v[2 * i], e.c, e.d, DefPrec)], e.a, e.b, e.c, e.d)
          [] e.kind = "homf" -> /\ \A i \in 1..n : PtOK(e.xs[i], e.a, e.b, v[2 * i - 1])
                                /\ HitOK(e.r, e.fs, [i \in 1..n |-> UnifOf(v[2 * i], 0, e.d, DefPrec)], e.a, e.b, 0, e.d)
          [] e.kind = "qhom" -> /\ \A i \in 1..n : Q(i - 1, Alpha2, e.a, e.b, e.xs[i])
                                /\ HitOK(e.r, e.fs, [i \in 1..n |-> RAdd(e.c, RMul(RSub(e.d, e.c), Frac(RMul(i - 1, RSq(Alpha2)))))], e.a, e.b, e.c, e.d)
          [] e.kind = "qhomf" -> /\ \A i \in 1..n : Q(i - 1, Alpha2, e.a, e.b, e.xs[i])
                                 /\ HitOK(e.r, e.fs, [i \in 1..n |-> RMul(e.d, Frac(RMul(i - 1, RSq(Alpha2))))], e.a, e.b, 0, e.d)
          [] e.kind = "hom2d" -> /\ \A i \in 1..n : PtOK(e.xs[i], e.a, e.b, v[3 * i - 2]) /\ PtOK(e.ys[i], e.c, e.d, v[3 * i - 1])
                                 /\ LET y == [i \in 1..n |-> UnifOf(v[3 * i], 0, e.m, DefPrec)]
                                        h == HitRange(e.fs, y)
                                        vol == RMul(e.m, RMul(RSub(e.b, e.a), RSub(e.d, e.c)))
                                    IN \E k \in h[1]..h[2] : Ulps(e.r, RDiv(RMul(vol, k), n), 20, RAbs(vol))
          \* importance sampling with density 1/2 on [0, 2]: f / g at the drawn points
          [] e.kind = "imp" -> (\A i \in 1..n : PtOK(e.xs[i], 0, 2, v[i])) /\ Mean(e.r, e.fs, 2)
          [] e.kind = "qimp" -> (\A i \in 1..n : Q(i, Alpha1, 0, 2, e.xs[i])) /\ Mean(e.r, e.fs, 2)

(******************************* machine ************************************)
S0 == [a |-> NoGen, b |-> NoGen, polar |-> <<>>, bm |-> <<>>]

GenStep(e) == e.op \in {"new", "raw", "draw", "discard", "seed", "state"}
TrailDraws(e) ==
  CASE e.op = "shuffle" -> 2 * Rounds(e)
    [] e.op \in {"trycatch", "reject"} -> 2 * Len(e.xs)
    [] e.op = "mc" -> McDraws(e)
    [] OTHER -> 0

RECURSIVE McSamples(_, _, _, _)
McSamples(s, e, i, acc) ==       \* x + 2 y, x uniform from register a, y exponential from register b
  IF i > e.N THEN <<s, acc>>
  ELSE LET ua == Sample(s, [dist |-> "uniform", g |-> "a", th |-> e.th, prec |-> DefPrec])
           s1 == [s EXCEPT !["a"] = ua.g]
           ub == Sample(s1, [dist |-> "exponential", g |-> "b", th |-> <<e.lambda>>])
       IN McSamples([s1 EXCEPT !["b"] = ub.g], e, i + 1, Append(acc, IAdd(ua.v, IScale(2, ub.v))))

SampStep(s, e) ==
  CASE GenStep(e) -> PrngStep(s, e)
    [] e.op = "sample" -> SampleOK(s, e)
    [] e.op = "shuffle" -> Len(e.x) > 0 /\ e.y = Shuffled(e.x, Take(s[e.g], 2 * Rounds(e), <<>>)[1], 0)
    [] e.op = "trycatch" -> TryCatchOK(s, e)
    [] e.op = "reject" -> RejectOK(s, e)
    [] e.op = "metropolis" -> Near(e.r, Walk(s, e.ga, e.gb, e.w, e.x0, e.depth)[2], "1e-9")
    [] e.op = "mc" -> McOK(s, e)
    [] e.op = "weyl" -> FracNear(e.r, RMul(e.n, e.alpha), RMul(FracTol(e.n), RAdd(1, RAbs(e.alpha))))
    [] e.op = "weylr" -> FracNear(e.r, RAdd(e.prev, e.alpha), RMul(8, R2Pow(-52)))
    [] e.op = "weylm" -> \A k \in 1..Len(e.r) : FracNear(e.r[k], RMul(e.n, RPow(e.alpha, k)), RMul(FracTol(e.n), k + 1))
    [] e.op = "samplemc" -> LET m == McSamples(s, e, 1, <<>>)[2]
                            IN Len(e.r) = e.N /\ \A i \in 1..e.N : Close(e.r[i], m[i], 1)
    [] OTHER -> FALSE

SampNext(s, e) ==
  CASE GenStep(e) -> PrngNext(s, e)
    [] e.op = "sample" -> AfterSample(s, e)
    [] e.op = "metropolis" -> Walk(s, e.ga, e.gb, e.w, e.x0, e.depth)[1]
    [] e.op = "samplemc" -> McSamples(s, e, 1, <<>>)[1]
    [] e.op \in {"shuffle", "trycatch", "reject", "mc"} -> [s EXCEPT ![e.g] = Drawn(s[e.g], TrailDraws(e))]
    [] OTHER -> s
=============================================================================
