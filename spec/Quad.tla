-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* Quadrature.  Every rule applied to a polynomial is an exact rational    *)
(* number, which the library has to return up to rounding; Gauss rules     *)
(* have to return the exact integral.  Nodes lie in the closed interval.   *)
(***************************************************************************)
EXTENDS Orth

Itg(p, a, b) == LET P == YInt(p) IN RSub(YVal(P, b), YVal(P, a))
At(p, a, h, k) == YVal(p, RAdd(a, RMul(k, h)))
Mid(p, a, b, n)  == LET h == RDiv(RSub(b, a), n) IN RMul(h, RSum([i \in 1..n |-> At(p, a, h, RSub(i, "1/2"))]))
TrapS(p, a, b, n) == LET h == RDiv(RSub(b, a), n) IN
   RMul(h, RSum([i \in 1..(n + 1) |-> RMul(IF i \in {1, n + 1} THEN "1/2" ELSE "1", At(p, a, h, i - 1))]))
SimpS(p, a, b, n) == LET h == RDiv(RSub(b, a), n) IN
   RMul(RDiv(h, 3), RSum([i \in 1..(n + 1) |-> RMul(IF i \in {1, n + 1} THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2, At(p, a, h, i - 1))]))
\* rows of Romberg's table; row j has the entries 0..j
Romb(p, a, b, m) ==
  LET f[j \in 0..m] == IF j = 0 THEN <<TrapS(p, a, b, 1)>>
        ELSE LET prev == Eager(f[j - 1])
                 g[k \in 0..j] == IF k = 0 THEN TrapS(p, a, b, 2^j)
                                  ELSE LET c == R2Pow(2 * k) q == Eager(g[k - 1]) IN RDiv(RSub(RMul(c, q), prev[k]), RSub(c, 1))
             IN  Eager([k \in 1..(j + 1) |-> g[k - 1]])
  IN  Eager(f)
Degr(p) == Len(p) - 1

(* size of the function and of its derivative on the interval *)
Big(e) == RMax(RAbs(e.a), RAbs(e.b))
MagF(p, z) == YVal(YAbs(p), z)
QTol(e, k) == LET z == Big(e) IN
   RMul(RMul(U, RAbs(RSub(e.b, e.a))), RAdd(RMul(k, MagF(e.p, z)), RMul(RMul(8, z), MagF(YDer(YAbs(e.p)), z))))
Inside(e) == LET w == RMul(RMul(4, U), Big(e)) IN
   /\ (e.cnt > 0 => RIsNum(e.lo) /\ RIsNum(e.hi) /\ RLe(RSub(RMin(e.a, e.b), w), e.lo) /\ RLe(e.hi, RAdd(RMax(e.a, e.b), w)))
Refused(e) == e.err # 0 /\ e.r = "nan"
\* the k-th derivative summed with e^-x: integral of p e^-x over [x, inf) divided by e^-x
LagTail(p) == LET f[k \in 0..Len(p)] == IF k = 0 THEN p ELSE YDer(Eager(f[k - 1]))
                  g[k \in 0..Len(p)] == IF k = 0 THEN p ELSE YAdd(Eager(g[k - 1]), f[k])
              IN  Eager(g[Len(p)])
Mom1(fam, p) == LET f[k \in 0..Len(p)] == IF k = 0 THEN Pt("0") ELSE IAdd(Eager(f[k - 1]), IScale(p[k], Moment(fam, k - 1))) IN Eager(f[Len(p)])
\* moments of the absolute value, for the size of the terms
MomA(fam, p) == LET f[k \in 0..Len(p)] == IF k = 0 THEN "0" ELSE RAdd(Eager(f[k - 1]), RMul(RAbs(p[k]), RMax(Moment(fam, k - 1)[2], IF fam = "her" /\ k > 1 THEN RAdd(Moment(fam, k - (k % 2) + 1)[2], Moment(fam, k - (k % 2))[2]) ELSE "0"))) IN Eager(f[Len(p)])

Q0 == 0
QStep(s, e) ==
  CASE e.op = "quad" ->
    (CASE e.n = 0 /\ e.f \in {"mid", "trap", "simp", "romb"} -> Refused(e)
       [] e.f = "mid" -> e.err = 0 /\ Inside(e) /\ Near(e.r, Mid(e.p, e.a, e.b, e.n), QTol(e, e.n + 16))
       [] e.f = "trap" -> e.err = 0 /\ Inside(e) /\ Near(e.r, TrapS(e.p, e.a, e.b, e.n), QTol(e, e.n + 16))
       [] e.f = "simp" -> e.err = 0 /\ Inside(e) /\
             IF e.n % 2 = 0 THEN Near(e.r, SimpS(e.p, e.a, e.b, e.n), QTol(e, e.n + 16))
             \* an odd number of steps has no canonical rule: the order of the error is what counts
             ELSE LET h == RDiv(RSub(e.b, e.a), e.n)
                      m4 == MagF(YDer(YDer(YDer(YDer(YAbs(e.p))))), Big(e))
                  IN  Near(e.r, Itg(e.p, e.a, e.b), RAdd(QTol(e, e.n + 16), RMul(RDiv(RAbs(RSub(e.b, e.a)), 80), RMul(RPow(h, 4), m4))))
       [] e.f = "romb" -> e.err = 0 /\ Inside(e) /\
             LET t == QTol(e, 2^e.n + 16 * e.n) IN
             IF Degr(e.p) <= 2 * e.n - 1 THEN Near(e.r, Itg(e.p, e.a, e.b), t)
             ELSE Near(e.r, Romb(e.p, e.a, e.b, e.n - 1)[e.n - 1][e.n], t)
       [] e.f = "rtol" -> e.err = 0 /\ Inside(e) /\
             LET m == 8
                 T == Romb(e.p, e.a, e.b, m)
                 d(j) == RAbs(RSub(T[j][j + 1], T[j - 1][j]))
                 slack == QTol(e, 2^m)
                 Sure(j) == RLt(RAdd(d(j), slack), e.tol)            \* certainly stops at j
                 May(j) == RLe(d(j), RAdd(e.tol, slack))             \* may stop at j
             IN  \E j \in 1..m : May(j) /\ (\A i \in 1..(j - 1) : ~Sure(i)) /\ Near(e.r, T[j][j + 1], slack)
       [] e.f = "leg" -> e.err = 0 /\ Inside(e) /\ Near(e.r, Itg(e.p, e.a, e.b), RMul(RMul(e.t, Len(e.p) + 1), RMul(RAbs(RSub(e.b, e.a)), MagF(e.p, Big(e)))))
       [] e.f = "lag" -> e.err = 0 /\ InEncl(e.r, Mom1("lag", e.p), RMul(RMul(e.t, Len(e.p) + 1), MomA("lag", e.p)))
       [] e.f = "her" -> e.err = 0 /\ InEncl(e.r, Mom1("her", e.p), RMul(RMul(e.t, Len(e.p) + 1), MomA("her", e.p)))
       [] e.f = "lagab" -> LET P == LagTail(e.p) Q == LagTail(YAbs(e.p)) ea == ExpE(RNeg(e.a)) eb == ExpE(RNeg(e.b)) IN
                           e.err = 0 /\ InEncl(e.r, ISub(IScale(YVal(P, e.a), ea), IScale(YVal(P, e.b), eb)),
                                          RMul(RMul(e.t, Len(e.p) + 1), RAdd(RMul(ea[2], YVal(Q, RAbs(e.a))), RMul(eb[2], YVal(Q, RAbs(e.b)))))))
    [] e.op = "noorder" -> Refused(e)                                 \* a tabulated rule that does not exist
    [] e.op = "gaussbad" -> Refused(e)                                \* numbers of nodes and weights differ
    \* weights w on nodes x, with the inverse weight function x^2 + 1 when winv
    [] e.op = "gauss" -> e.err = 0 /\ LET T == [i \in 1..Len(e.x) |-> RMul(RMul(e.w[i], YVal(e.p, e.x[i])), IF e.winv THEN RAdd(1, RSq(e.x[i])) ELSE 1)]
                                          M == [i \in 1..Len(e.x) |-> RMul(RMul(RAbs(e.w[i]), MagF(e.p, RAbs(e.x[i]))), IF e.winv THEN RAdd(1, RSq(e.x[i])) ELSE 1)]
                                      IN  Ulps(e.r, RSum(T), Len(e.x) + 2 * Len(e.p) + 8, RSum(M))
    \* integral of A exp(-k x) from a to infinity in steps
    [] e.op = "inf" ->
         LET F(x) == IExp(Pt(RNeg(RMul(e.k, x))))
             Piece(m) == LET l == RAdd(e.a, RMul(m, e.h)) IN IScale(RDiv(e.A, e.k), ISub(F(l), F(RAdd(l, e.h))))
             Ratio(m) == RDiv(IMid(Piece(m)), e.tol)
             \* the pieces decrease: the number of them until one is within tolerance
             stop == CHOOSE m \in 1..(e.max + 2) : m = e.max + 2 \/ (RLe(RAbs(Ratio(m)), 1) /\ \A i \in 1..(m - 1) : RLt(1, RAbs(Ratio(i))))
             edge == \E m \in {stop - 1, stop, stop + 1} : RLe(RAbs(RSub(RAbs(Ratio(m)), 1)), "1/10")
             all == IScale(RDiv(e.A, e.k), F(e.a))
             last == RAdd(e.a, RMul(stop + 1, e.h))
             rest == IScale(RDiv(e.A, e.k), F(last))
         IN  IF edge THEN TRUE
             ELSE IF stop > e.max THEN Refused(e)
             ELSE e.err = 0 /\ InEncl(e.r, ISub(all, rest), RAdd(RMul(RMul(2, stop + 1), e.tol), RMul("1e-13", IAbsMax(all)))) /\ RLe(e.a, e.lo) /\ RLe(e.hi, RAdd(last, "1e-9"))
    [] e.op = "infconst" -> IF REq(e.A, 0) THEN e.err = 0 /\ REq(e.r, 0) ELSE Refused(e)
QNext(s, e) == s
=============================================================================
