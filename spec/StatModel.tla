------------------------------ MODULE StatModel -----------------------------
(***************************************************************************)
(* All small data sets over a few values and weights, grown one point at a *)
(* time.  In every state: the weighted least-squares line has no better    *)
(* neighbour in any direction (and solves the normal equations), a line    *)
(* through the data is recovered, moments are invariant under reordering   *)
(* and shifts, the line for errors on both axes is a minimum, and the      *)
(* chi-squared probabilities decrease and obey their recurrence.           *)
(***************************************************************************)
EXTENDS Stat
CONSTANTS MaxN
VARIABLES x, y, w
Vals == {"-1", "0", "2"}
YV == {"0", "1", "3"}
WV == {"1", "3"}
Init == x = <<>> /\ y = <<>> /\ w = <<>>
Next == Len(x) < MaxN /\ \E a \in Vals : \E b \in YV : \E c \in WV : x' = Append(x, a) /\ y' = Append(y, b) /\ w' = Append(w, c)
n == Len(x)
Steps == {<<"1/8", "0">>, <<"-1/8", "0">>, <<"0", "1/8">>, <<"0", "-1/8">>, <<"1/16", "-1/16">>, <<"-1", "1">>}
Cost(A, B) == SsqW(Resid(x, y, A, B), w)
Minimal == n > 1 => LET L == Wls(x, y, w) IN
  IF REq(L.D, 0) THEN \A i, j \in 1..n : x[i] = x[j]
  ELSE LET r == Resid(x, y, L.A, L.B) IN
       /\ REq(RDot(w, r), 0) /\ REq(RSum([i \in 1..n |-> RMul(w[i], RMul(x[i], r[i]))]), 0)
       /\ \A d \in Steps : RLt(Cost(L.A, L.B), Cost(RAdd(L.A, d[1]), RAdd(L.B, d[2])))
       \* the covariance is the inverse of the matrix of the normal equations
       /\ RLt(0, L.D) /\ REq(RSub(RMul(L.Sw, RDiv(L.Sxx, L.D)), RMul(L.Sx, RDiv(L.Sx, L.D))), 1)
Recover == n > 1 => LET z == [i \in 1..n |-> RAdd("1/3", RMul("-7/2", x[i]))] L == Wls(x, z, w) IN
  REq(L.D, 0) \/ (REq(L.A, "1/3") /\ REq(L.B, "-7/2"))
Rev(d) == [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]
Moments == n > 1 =>
  /\ REq(Cov(x, x, 1), Var(x, 1)) /\ REq(Cov(x, y, 1), Cov(Rev(x), Rev(y), 1)) /\ REq(Cov(x, y, 1), Cov(y, x, 1))
  /\ RLe(RSq(Cov(x, y, 1)), RMul(Var(x, 1), Var(y, 1)))
  /\ REq(Var([i \in 1..n |-> RAdd(5, x[i])], 1), Var(x, 1))
  /\ REq(Tss(x), RSub(RDot(x, x), RMul(n, RSq(Mean(x)))))
  /\ ~REq(Tss(x), 0) => /\ REq(Auto(x, 0), 1) /\ \A k \in 1..n : RLe(RAbs(Auto(x, k)), 1)
                        /\ RLe(RSq(AbsDev(x)), RDiv(Tss(x), n))
(* for errors 1 and 2 on the axes: the root of the quadratic is a minimum *)
DCost(B) == LET A == RSub(Mean(y), RMul(B, Mean(x))) IN RDiv(SsqW(Resid(x, y, A, B), Ones(n)), RAdd(4, RSq(B)))
Deming == n > 1 => LET q == Dem(x, y, 1, 2) IN
  ~REq(q.dxy, 0) =>
    LET disc == SqrtE(RAdd(RSq(q.dd), RMul(4, RMul(RMul(q.vx, q.vy), RSq(q.dxy)))))
        B == RDiv(RAdd(q.dd, disc[1]), RMul(RMul(2, q.vx), q.dxy))
    IN  /\ RSgn(B) = RSgn(q.dxy) /\ RLe(RAbs(DemF(q, B)), "1e-30") /\ DemOK(q, x, y, RDown(RSub(Mean(y), RMul(B, Mean(x))), 200), B)
        /\ RLt(DCost(B), DCost(RAdd(B, "1/100"))) /\ RLt(DCost(B), DCost(RSub(B, "1/100")))
\* at the empty data set only
Chi == n = 0 =>
  /\ \A h \in {"1/4", "3", "20"} : IMeet(ChiQ(RMul(2, h), 2), IExp(Pt(RNeg(h))))
  /\ \A k \in 1..9 : \A z \in {"1/2", "4", "19"} :
       LET a == ChiQ(z, k) b == ChiQ(z, k + 2) h == RDiv(z, 2)
           t == IDiv(IExp(ISub(IScale(RDiv(k, 2), LnE(h)), Pt(h))), GamHalf(k))
       IN  /\ IMeet(b, IAdd(a, t)) /\ RLt(RSub(b[2], b[1]), "1e-30")
           /\ RLt(ChiQ(RAdd(z, 1), k)[2], a[1]) /\ RLt(0, a[1]) /\ RLt(a[2], 1)
  /\ REq(GaussE(<<"1", "2", "3", "4">>, "2", "3"), RAdd(RAdd(1, 4), RAdd(RMul(3, 4 + 9), RMul(4, 8 + 3 * 2 * 9))))
=============================================================================
