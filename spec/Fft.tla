-------------------------------- MODULE Fft ---------------------------------
(***************************************************************************)
(* The discrete Fourier transform by its defining sum.  The roots of unity *)
(* are enclosed to 2^-130; the implementation must agree up to the growth  *)
(* of rounding errors.                                                     *)
(***************************************************************************)
EXTENDS Cplx, TLC
\* exp(2 pi i k / N), k = 0 .. N-1, rounded to 110 bits
Tw(N) == Once("tw" \o ToString(N), Eager([k \in 1..N |-> LET a == RDown(RMul(RDiv(2 * (k - 1), N), PiMid), 140) IN <<RDown(IMid(CosE(a)), 110), RDown(IMid(SinE(a)), 110)>>]))
Root(N, k) == Tw(N)[(k % N) + 1]
\* bin j of the transform with sign sg (-1 forward, 1 inverse), not normalised
Bin(x, j, sg) == LET N == Len(x) r == [n \in 1..N |-> LET w == Root(N, (n - 1) * j) IN CMul(x[n], IF sg = 1 THEN w ELSE CConj(w))]
                 IN <<RSum([n \in 1..N |-> r[n][1]]), RSum([n \in 1..N |-> r[n][2]])>>
Size(x) == RSum([n \in 1..Len(x) |-> CAbs1(x[n])])
Pow2(N) == \E m \in 0..16 : N = 2^m
Tolr(x) == RMul(RMul(Len(x) + 8, R2Pow(-50)), Size(x))
Dft(e, j) == LET N == Len(e.x) b == Bin(e.x, j, IF e.inv THEN 1 ELSE -1) IN IF e.inv THEN CScal(RDiv(1, N), b) ELSE b
FStep(s, e) ==
  CASE e.op = "fft" ->
         IF e.n = 0 THEN e.err = 0 /\ e.rn = 0
         ELSE IF ~Pow2(e.n) THEN e.err # 0 /\ e.rn = e.n /\ \A j \in 1..Len(e.r) : e.r[j][1] = "nan"
         ELSE /\ e.err = 0 /\ e.rn = e.n /\ e.x = e.x1          \* the argument is not changed
              /\ LET t == IF e.inv THEN RDiv(Tolr(e.x), e.n) ELSE Tolr(e.x) IN
                 \A j \in 1..Len(e.bins) : CNear(e.r[j], Dft(e, e.bins[j]), t)
    [] e.op = "round" -> e.err = 0 /\ Len(e.r) = Len(e.x) /\ LET t == RMul(RMul(Len(e.x) + 8, R2Pow(-49)), RDiv(Size(e.x), 1)) IN \A j \in 1..Len(e.x) : CNear(e.r[j], e.x[j], t)
F0 == "-"
FNext(s, e) == s
=============================================================================
