-------------------------------- MODULE Hist --------------------------------
(***************************************************************************)
(* Histograms.  The state is the range, the number of elements in each bin *)
(* and the sequence of data accepted so far.  Inserting a datum inside the *)
(* range adds one to the bin whose half-open interval contains it (the     *)
(* last one closed) and the datum to the sequence; anything else leaves    *)
(* the state alone.  Every statistic observed is the one of the sequence.  *)
(* A datum whose position is not exact in floating-point arithmetic may be *)
(* put in a bin next to an edge that it meets up to rounding.              *)
(***************************************************************************)
EXTENDS Cplx, TLC

InRange(s, x) == RIsNum(x) /\ RLe(s.lo, x) /\ RLe(x, s.hi)
\* representable with 53 bits
Dbl(a) == REq(a, 0) \/ RDen(RMul(a, R2Pow(52 - RExp2(a)))) = "1"
Pos(s, x) == RMul(RDiv(RSub(x, s.lo), RSub(s.hi, s.lo)), s.n)
Exact(s, x) == Dbl(RSub(x, s.lo)) /\ Dbl(RSub(s.hi, s.lo)) /\ Dbl(RDiv(RSub(x, s.lo), RSub(s.hi, s.lo))) /\ Dbl(Pos(s, x))
ClampI(i, n) == IF RLe(n, i) THEN n - 1 ELSE IF RLt(i, 0) THEN 0 ELSE RToInt(i)
\* the bins (from 0) that may count x
Bins(s, x) ==
  IF REq(s.lo, s.hi) \/ RLe(s.hi, x) THEN {s.n - 1}
  ELSE LET p == Pos(s, x)
       IN  IF Exact(s, x) THEN {ClampI(RFloor(p), s.n)}
           ELSE LET w == RMul(RMul(4, U), RMax(p, RDiv(RMul(s.n, RMax(RAbs(s.lo), RAbs(s.hi))), RSub(s.hi, s.lo))))
                    a == ClampI(RFloor(RSub(p, w)), s.n) b == ClampI(RFloor(RAdd(p, w)), s.n)
                IN  a..b
RECURSIVE Place(_, _, _)
Zeros(n) == [i \in 1..n |-> 0]
Add1(b, i) == [b EXCEPT ![i + 1] = @ + 1]
Place(b, idx, k) == IF k > Len(idx) THEN b ELSE Place(Add1(b, idx[k]), idx, k + 1)

(***************************** statistics **********************************)
Mean(d) == RDiv(RSum(d), Len(d))
Tss(d) == LET m == Mean(d) IN RSum([i \in 1..Len(d) |-> RSq(RSub(d[i], m))])
MaxOf(d) == LET f[i \in 1..Len(d)] == IF i = 1 THEN d[1] ELSE RMax(f[i - 1], d[i]) IN f[Len(d)]
MinOf(d) == LET f[i \in 1..Len(d)] == IF i = 1 THEN d[1] ELSE RMin(f[i - 1], d[i]) IN f[Len(d)]
Tiny == "1e-300"       \* underflow
\* one-pass accuracy: n u (S + sqrt(S sum x^2)) + (n u)^2 sum x^2
TssTol(d, S) == LET q == RDot(d, d) nu == RMul(8 * (Len(d) + 1), U)
                IN  RAdd(RMul(nu, RAdd(S, SqrtE(RMul(S, q))[2])), RAdd(RMul(RSq(nu), q), Tiny))
MeanTol(d) == RAdd(RMul(RMul(4 * (Len(d) + 1), U), RMaxAbs(d)), Tiny)
Isqrt(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n

StatsOK(s, e) ==
  LET d == s.data N == Len(d) IN
  /\ e.bins = s.bins /\ e.at = s.bins /\ e.number = N
  /\ IF N = 0 THEN /\ REq(e.mean, 0) /\ REq(e.tss, 0) /\ e.max = "-inf" /\ e.min = "inf"
     ELSE LET S == Eager(Tss(d))
          IN  /\ Near(e.mean, Mean(d), MeanTol(d)) /\ Near(e.tss, S, TssTol(d, S))
              /\ REq(e.max, MaxOf(d)) /\ REq(e.min, MinOf(d))
  /\ e.mean2 = e.mean /\ e.tss2 = e.tss /\ e.max2 = e.max /\ e.min2 = e.min
  /\ IF N <= 1 THEN e.err # 0 /\ e.var = "nan" /\ e.sd = "nan"
     ELSE /\ e.err = 0
          /\ LET S == RDiv(Tss(d), N - 1) T == RDiv(TssTol(d, Tss(d)), N - 1)
             IN  Near(e.var, S, RAdd(T, RAdd(RMul(RMul(4, U), S), Tiny)))
          /\ RLe(0, e.sd) /\ Near(RSq(e.sd), e.var, RAdd(RMul("1e-7", e.var), Tiny))
\* rows of the text form: <<x, value>>, printed with six significant digits
TextOK(s, e) ==
  IF s.data = <<>> THEN e.rows = <<>>
  ELSE /\ Len(e.rows) = s.n
       /\ LET w == RDiv(RSub(s.hi, s.lo), s.n) m == IF e.lower THEN "0" ELSE "1/2" big == RMax(RAbs(s.lo), RAbs(s.hi))
          IN  \A i \in 1..s.n : /\ Near(e.rows[i][1], RAdd(s.lo, RMul(RAdd(i - 1, m), w)), RMul("6e-6", big))
                                /\ IF e.norm THEN Near(e.rows[i][2], RDiv(s.bins[i], Len(s.data)), "6e-6")
                                   ELSE REq(e.rows[i][2], s.bins[i])

H0 == [lo |-> "0", hi |-> "1", n |-> 1, bins |-> <<0>>, data |-> <<>>]
HStep(s, e) ==
  CASE e.op = "new" -> e.bins = Zeros(e.n)
    [] e.op = "data" ->
         LET q == [lo |-> MinOf(e.x), hi |-> MaxOf(e.x), n |-> IF e.n = 0 THEN Isqrt(Len(e.x)) ELSE e.n]
         IN  /\ Len(e.bins) = q.n /\ Len(e.idx) = Len(e.x)
             /\ \A k \in 1..Len(e.x) : e.idx[k] \in Bins(q, e.x[k])
             /\ e.bins = Place(Zeros(q.n), e.idx, 1)
    [] e.op = "ins" ->
         /\ Len(e.bins) = s.n
         /\ IF InRange(s, e.x) THEN \E i \in Bins(s, e.x) : e.bins = Add1(s.bins, i) /\ e.idx = i /\ REq(e.val, e.bins[i + 1])
            ELSE e.bins = s.bins /\ REq(e.val, 0)
    [] e.op = "val" -> IF InRange(s, e.x) THEN \E i \in Bins(s, e.x) : REq(e.val, s.bins[i + 1]) ELSE REq(e.val, 0)
    [] e.op = "stats" -> StatsOK(s, e)
    [] e.op = "text" -> TextOK(s, e)
HNext(s, e) ==
  CASE e.op = "new" -> [lo |-> e.lo, hi |-> e.hi, n |-> e.n, bins |-> e.bins, data |-> <<>>]
    [] e.op = "data" -> [lo |-> MinOf(e.x), hi |-> MaxOf(e.x), n |-> Len(e.bins), bins |-> e.bins, data |-> e.x]
    [] e.op = "ins" /\ InRange(s, e.x) -> [s EXCEPT !.bins = e.bins, !.data = Append(@, e.x)]
    [] OTHER -> s
=============================================================================
