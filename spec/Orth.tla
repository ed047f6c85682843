-------------------------------- MODULE Orth --------------------------------
(***************************************************************************)
(* Orthogonal polynomials by their three-term recurrences and the exact    *)
(* moments of their weight functions; what makes nodes and weights a Gauss *)
(* rule.                                                                   *)
(***************************************************************************)
EXTENDS Poly
X == <<"0", "1">>
\* n p_n = (a + b x) p_(n-1) - c p_(n-2) with d = n or 1
First(fam, al) == CASE fam = "leg" -> <<"0", "1">> [] fam = "lag" -> <<"1", "-1">> [] fam = "glag" -> <<RAdd(1, al), "-1">>
                    [] fam = "her" -> <<"0", "2">> [] fam = "ch1" -> <<"0", "1">> [] fam = "ch2" -> <<"0", "2">>
Recur(fam, al, p1, p0, n) ==
  CASE fam = "leg" -> YScal(RDiv(1, n), YSub(YScal(2 * n - 1, YMul(X, p1)), YScal(n - 1, p0)))
    [] fam = "lag" -> YScal(RDiv(1, n), YSub(YMul(<<2 * n - 1, "-1">>, p1), YScal(n - 1, p0)))
    [] fam = "glag" -> YScal(RDiv(1, n), YSub(YMul(<<RAdd(2 * n - 1, al), "-1">>, p1), YScal(RAdd(n - 1, al), p0)))
    [] fam = "her" -> YSub(YMul(<<"0", "2">>, p1), YScal(2 * (n - 1), p0))
    [] fam \in {"ch1", "ch2"} -> YSub(YMul(<<"0", "2">>, p1), p0)
\* the pair <<p_n, p_(n-1)>>
PairUp(fam, al, n) == LET f[i \in 1..n] == IF i = 1 THEN <<First(fam, al), <<"1">>>> ELSE LET q == Eager(f[i - 1]) IN Eager(<<Recur(fam, al, q[1], q[2], i), q[1]>>) IN f[n]
Orth(fam, al, n) == IF n = 0 THEN <<"1">> ELSE PairUp(fam, al, n)[1]
\* absolute terms of the recurrence, the scale of its rounding errors
Fct(n) == RProd([i \in 1..n |-> i])
DFct(n) == RProd([i \in 1..(n \div 2 + 1) |-> IF 2 * i - 1 <= n THEN 2 * i - 1 ELSE 1])     \* odd double factorial, n odd (or -1)
RootPi == SqrtE(PiMid)
\* k-th moment of the weight function: 1 on [-1, 1], e^-x on [0, oo), e^-x^2 on the line
Moment(fam, k) == CASE fam = "leg" -> Pt(IF k % 2 = 1 THEN "0" ELSE RDiv(2, k + 1))
                    [] fam = "lag" -> Pt(Fct(k))
                    [] fam = "her" -> IF k % 2 = 1 THEN Pt("0") ELSE IScale(RMul(DFct(k - 1), R2Pow(-(k \div 2))), RootPi)
\* x, w is the Gauss rule of order n of the family, to relative accuracy t
GaussOK(fam, n, x, w, t) ==
  /\ Len(x) = n /\ Len(w) = n
  /\ \A i \in 1..n : RIsNum(x[i]) /\ RIsNum(w[i]) /\ RLt(0, w[i])
  /\ \A i \in 1..(n - 1) : RLt(x[i], x[i + 1])
  /\ LET p == Orth(fam, 0, n) IN \A i \in 1..n : LET d == RMul(t, RAdd(RAbs(x[i]), "1/100")) IN RLe(RMul(YVal(p, RSub(x[i], d)), YVal(p, RAdd(x[i], d))), 0)
  /\ \A k \in 0..(2 * n - 1) :
       LET s == RSum([i \in 1..n |-> RMul(w[i], RPow(x[i], k))]) a == RSum([i \in 1..n |-> RMul(w[i], RPow(RAbs(x[i]), k))]) IN
         InEncl(s, Moment(fam, k), RMul(RMul(k + 1, t), a))
  /\ fam # "lag" => \A i \in 1..n : Near(x[i], RNeg(x[n + 1 - i]), RMul(t, RAdd(RAbs(x[i]), "1/100"))) /\ Near(w[i], w[n + 1 - i], RMul(RMul(4, t), w[i]))
\* associated Legendre function with the Condon-Shortley phase; S = 1 - x^2
AssocSq(l, m, x) ==      \* for |m|: <<sign and factor, power of S>>
  LET k == IF m < 0 THEN -m ELSE m
      d[i \in 0..k] == IF i = 0 THEN Orth("leg", 0, l) ELSE YDer(Eager(d[i - 1]))
      v == YVal(d[k], x)
      c == IF m < 0 THEN RDiv(Fct(l - k), Fct(l + k)) ELSE IF k % 2 = 1 THEN "-1" ELSE "1"
      S == RSub(1, RSq(x))
  IN IScale(RMul(RMul(c, v), RPow(S, k \div 2)), IF k % 2 = 1 THEN SqrtE(S) ELSE Pt(1))
AssocScale(l, m, x) ==
  LET k == IF m < 0 THEN -m ELSE m
      d[i \in 0..k] == IF i = 0 THEN Orth("leg", 0, l) ELSE YDer(Eager(d[i - 1]))
      c == IF m < 0 THEN RDiv(Fct(l - k), Fct(l + k)) ELSE "1"
  IN RMul(c, YVal(YAbs(d[k]), RAbs(x)))
AssocEven(l, m) == LET k == IF m < 0 THEN -m ELSE m
                       d[i \in 0..k] == IF i = 0 THEN Orth("leg", 0, l) ELSE YDer(Eager(d[i - 1]))
                       s[i \in 0..(k \div 2)] == IF i = 0 THEN <<"1">> ELSE YMul(Eager(s[i - 1]), <<"1", "0", "-1">>)
                       c == IF m < 0 THEN RDiv(Fct(l - k), Fct(l + k)) ELSE "1"
                   IN YScal(c, YMul(d[k], s[k \div 2]))
Close(r, p, t) == Len(r) >= Deg(p) + 1 /\ \A k \in 0..(Len(r) - 1) : Near(r[k + 1], C(p, k), RMul(t, RMax(RAbs(C(p, k)), "1e-300")))
CloseMax(r, p, t) == \A k \in 0..Larger(Len(r), Len(p)) : Near(C(r, k), C(p, k), RMul(t, RMaxAbs(p)))
OStep(s, e) ==
  CASE e.op = "poly" -> e.err = 0 /\ Len(e.r) = e.n + 1 /\ LET p == Orth(e.fam, e.al, e.n) IN
                          IF e.fam = "glag" THEN CloseMax(e.r, p, "1e-12") ELSE Close(e.r, p, "1e-13")
    [] e.op = "gauss" -> e.err = 0 /\ GaussOK(e.fam, e.n, e.x, e.w, e.t)
    [] e.op = "assoc" -> e.err = 0 /\ InEncl(e.r, AssocSq(e.l, e.m, e.x), RMul("1e-13", AssocScale(e.l, e.m, e.x)))
    [] e.op = "even" -> IF e.m % 2 # 0 THEN e.err # 0 /\ YBad(e.r) ELSE e.err = 0 /\ CloseMax(e.r, AssocEven(e.l, e.m), "1e-13")
    [] e.op = "lnorm" -> e.err = 0 /\ Ulps(RSq(e.r), RDiv(2 * e.n + 1, 2), 8, 2 * e.n + 1)
    [] e.op = "hnorm" -> e.err = 0 /\ RIsNum(e.r) /\ RLt(0, e.r) /\ InEncl(RInv(RMul(RSq(e.r), RMul(R2Pow(e.n), Fct(e.n)))), RootPi, RMul("1e-14", 1 + e.n \div 8))
O0 == "-"
ONext(s, e) == s
=============================================================================
