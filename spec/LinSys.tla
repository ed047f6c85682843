------------------------------- MODULE LinSys -------------------------------
(***************************************************************************)
(* Linear systems over the rationals: elimination with exact arithmetic    *)
(* gives determinant, leading minors (pivots), inverse and condition; what *)
(* the implementation returns is judged by its residual on the scale a     *)
(* backward stable method attains, and every refusal must be justified by  *)
(* a (nearly) null pivot.                                                  *)
(***************************************************************************)
EXTENDS Matr

(********************* exact elimination ***********************************)
\* one column of elimination on the record [m: matrix, d: determinant so far]; rows are exchanged
LOCAL FirstRow(m, k) == LET c == {i \in k..Rows(m) : ~REq(m[i][k], 0)} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
LOCAL ElimStep(r, k) ==
  LET p == FirstRow(r.m, k) IN
  IF p = 0 \/ REq(r.d, 0) THEN [m |-> r.m, d |-> "0"]
  ELSE LET m1 == IF p = k THEN r.m ELSE MSwapRows(r.m, p, k)
           m2 == [i \in 1..Rows(m1) |-> IF i = k THEN [j \in 1..Cols(m1) |-> RDiv(m1[k][j], m1[k][k])]
                    ELSE LET c == RDiv(m1[i][k], m1[k][k]) IN [j \in 1..Cols(m1) |-> RSub(m1[i][j], RMul(c, m1[k][j]))]]
       IN [m |-> m2, d |-> RMul(r.d, IF p = k THEN m1[k][k] ELSE RNeg(m1[k][k]))]
Elim(m) == LET f[k \in 0..Rows(m)] == IF k = 0 THEN [m |-> m, d |-> "1"] ELSE Eager(ElimStep(f[k - 1], k)) IN f[Rows(m)]
Det(m) == IF Rows(m) = 0 THEN "1" ELSE Elim(m).d
Augment(m, p) == [i \in 1..Rows(m) |-> m[i] \o p[i]]
Inverse(m) ==      \* the matrix must be invertible
  LET n == Rows(m) r == Elim(Augment(m, MDiag(n, n, "1"))).m IN Eager(Mat(n, n, LAMBDA i, j : r[i][n + j]))
Minor(m, k) == Mat(k, k, LAMBDA i, j : m[i][j])
\* the pivots of elimination without exchanges: quotients of leading minors ("none" after a null one)
Pivots(m) == [k \in 1..Rows(m) |-> LET d == Det(Minor(m, k - 1)) IN IF REq(d, 0) THEN "nan" ELSE RDiv(Det(Minor(m, k)), d)]

NormInf(m) == RMaxAbs([i \in 1..Rows(m) |-> RSumAbs(m[i])])
Cond(m) == IF REq(Det(m), 0) THEN "nan" ELSE RMul(NormInf(m), NormInf(Inverse(m)))
CondBelow(m, k) == LET c == Cond(m) IN RIsNum(c) /\ RLe(c, R2Pow(k))
MV(m, x) == Eager([i \in 1..Rows(m) |-> RDot(m[i], x)])
MaxAbs(x) == RMaxAbs(x)
IsV(x) == \A i \in 1..Len(x) : RIsNum(x[i])

(********************* acceptance ******************************************)
K(n) == 64 * n * n
Resid(a, x, b, scale, k) ==      \* |a x - b| <= k units of rounding of the scale
  LET r == MV(a, x) t == RMul(RMul(k, R2Pow(-52)), scale) IN \A i \in 1..Len(b) : RLe(RAbs(RSub(r[i], b[i])), t)
Blatant(m) == \* singular in a way no rounding can hide
  \/ \E i \in 1..Rows(m) : \A j \in 1..Cols(m) : REq(m[i][j], 0)
  \/ \E j \in 1..Cols(m) : \A i \in 1..Rows(m) : REq(m[i][j], 0)
  \/ \E i, k \in 1..Rows(m) : i # k /\ \A j \in 1..Cols(m) : REq(m[i][j], m[k][j])

SolveOK(e) ==
  LET n == Rows(e.a) IN
  IF ~Square(e.a) \/ Len(e.b) # n THEN e.err # 0 /\ ~IsV(e.x)
  ELSE IF e.err # 0 THEN ~CondBelow(e.a, 44) /\ ~IsV(e.x)
  ELSE /\ ~Blatant(e.a)
       /\ Len(e.x) = n /\ IsV(e.x) /\ Resid(e.a, e.x, e.b, RAdd(RMul(NormInf(e.a), MaxAbs(e.x)), MaxAbs(e.b)), K(n))

\* how much the determinant moves under relative perturbations of the matrix
DetScale(a) == IF CondBelow(a, 36) THEN RMul(RAbs(Det(a)), Cond(a)) ELSE RPow(NormInf(a), Rows(a))
DetOK(e) ==
  IF ~Square(e.a) THEN e.err # 0 /\ ~RIsNum(e.r)
  ELSE e.err = 0 /\ Ulps(e.r, Det(e.a), K(Rows(e.a)), DetScale(e.a)) /\ (Blatant(e.a) => REq(e.r, 0))

InvOK(e) ==
  LET n == Rows(e.a) IN
  IF ~Square(e.a) \/ ~e.fits THEN e.err # 0 /\ ErrM(e.r)
  ELSE IF e.err # 0 THEN ~CondBelow(e.a, 44) /\ ErrM(e.r)
  ELSE /\ ~Blatant(e.a) /\ SameShape(e.r, e.a) /\ IsM(e.r)
       \* Gauss-Jordan elimination: forward error of the order of the condition number, relative to the biggest element
       /\ CondBelow(e.a, 40) => LET v == Eager(Inverse(e.a)) t == RMul(RMul(RMul(K(n), R2Pow(-52)), Cond(e.a)), NormInf(v)) IN
             \A i, j \in 1..n : RLe(RAbs(RSub(e.r[i][j], v[i][j])), t)

Lower(m) == \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : j > i => REq(m[i][j], 0)
Upper(m) == \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : j < i => REq(m[i][j], 0)
UnitDiag(m) == \A i \in 1..Rows(m) : REq(m[i][i], 1)
\* every pivot but the last is clearly not null, also after the growth of the elements by earlier pivots
\* (the decomposition must then succeed)
GoodPivots(a) ==
  LET p == Eager(Pivots(a)) N == NormInf(a)
      g[k \in 0..(Rows(a) - 1)] == IF k = 0 THEN "1" ELSE LET h == Eager(g[k - 1]) IN IF ~RIsNum(p[k]) \/ REq(p[k], 0) THEN h ELSE RMul(h, RSq(RAdd(1, RDiv(N, RAbs(p[k])))))
  IN  \A k \in 1..(Rows(a) - 1) : RIsNum(p[k]) /\ RLt(RMul(R2Pow(-30), N), RAbs(p[k])) /\ RLt(RMul(RMul(R2Pow(-45), N), g[k - 1]), RAbs(p[k]))
LuOK(e) ==
  LET n == Rows(e.a) IN
  IF ~Square(e.a) \/ ~e.fits THEN e.err # 0 /\ ErrM(e.l)
  ELSE IF e.err # 0 THEN ~GoodPivots(e.a) /\ ErrM(e.l) /\ ErrM(e.u)
  ELSE /\ n > 1 => ~REq(e.a[1][1], 0)
       /\ SameShape(e.l, e.a) /\ SameShape(e.u, e.a) /\ IsM(e.l) /\ IsM(e.u)
       /\ Lower(e.l) /\ UnitDiag(e.l) /\ Upper(e.u)
       /\ NearM(MMul(e.l, e.u), e.a, 2 * n + 2, MMul(MAbs(e.l), MAbs(e.u)))
Sym(a) == Square(a) /\ \A i, j \in 1..Rows(a) : REq(a[i][j], a[j][i])
ChOK(e) ==
  LET n == Rows(e.a) a == e.a IN
  IF ~Square(a) THEN e.err # 0 /\ ErrM(e.l)
  ELSE IF ~Sym(a) THEN (\E i, j \in 1..n : RLt("1e-13", RAbs(RSub(a[i][j], a[j][i])))) => (e.err # 0 /\ ErrM(e.l))
  ELSE LET p == Pivots(a) t == RMul(R2Pow(-40), RMax(1, NormInf(a)))
           pd == \A k \in 1..n : RIsNum(p[k]) /\ RLt(t, p[k])                      \* clearly positive definite
           no == \E k \in 1..n : RIsNum(p[k]) /\ RLt(p[k], RNeg(t)) /\ \A j \in 1..(k - 1) : RLt(t, p[j])      \* clearly not
       IN IF e.err # 0 THEN ~pd /\ ErrM(e.l)
          ELSE /\ ~no /\ ~RLe(a[1][1], 0)
               /\ SameShape(e.l, a) /\ IsM(e.l) /\ Lower(e.l)
               /\ \A i \in 1..n : RLt(0, e.l[i][i])
               /\ NearM(MMul(e.l, Tr(e.l)), a, 4 * n + 8, MMul(MAbs(e.l), Tr(MAbs(e.l))))

TinyDiag(m) == \E i \in 1..MinRC(m) : RLt(RAbs(m[i][i]), R2Pow(-52))
\* triangular systems: one of the triangles of e.a is read
TriOK(e) ==
  LET n == Rows(e.a)
      part(up) == Mat(n, n, LAMBDA i, j : IF (up /\ j < i) \/ (~up /\ j > i) THEN "0" ELSE e.a[i][j])
      acc(t) == IF e.err # 0 THEN TinyDiag(t) /\ ~IsV(e.x)
                ELSE /\ ~TinyDiag(t) /\ Len(e.x) = n /\ IsV(e.x)
                     /\ LET sc == MV(MAbs(t), [i \in 1..n |-> RAbs(e.x[i])]) r == MV(t, e.x) IN
                        \A i \in 1..n : RLe(RAbs(RSub(r[i], e.b[i])), RMul(RMul(2 * n + 2, R2Pow(-52)), RAdd(sc[i], RAbs(e.b[i]))))
  IN IF ~Square(e.a) \/ Len(e.b) # n THEN e.err # 0 /\ ~IsV(e.x)
     ELSE CASE e.f = "lower" -> acc(part(FALSE))
            [] e.f = "upper" -> acc(part(TRUE))
            [] e.f = "auto" -> IF Lower(e.a) THEN acc(part(FALSE)) ELSE IF Upper(e.a) THEN acc(part(TRUE)) ELSE e.err # 0 /\ ~IsV(e.x)
\* from given factors: l u x = b (f = "lu"), the packed factors ("packed") or l l^T x = b ("chol")
FacOK(e) ==
  LET n == Rows(e.a)
      l == CASE e.f = "lu" -> e.a [] e.f = "packed" -> Mat(n, n, LAMBDA i, j : IF i = j THEN "1" ELSE IF j < i THEN e.a[i][j] ELSE "0") [] e.f = "chol" -> e.a
      u == CASE e.f = "lu" -> e.u [] e.f = "packed" -> Mat(n, n, LAMBDA i, j : IF j >= i THEN e.a[i][j] ELSE "0") [] e.f = "chol" -> Tr(e.a)
      fits == Square(e.a) /\ Len(e.b) = n /\ (e.f = "lu" => Square(e.u) /\ Rows(e.u) = n)
  IN IF ~fits THEN e.err # 0 /\ ~IsV(e.x)
     ELSE IF \E i \in 1..n : REq(u[i][i], 0) THEN e.err # 0 /\ ~IsV(e.x)
     ELSE IF e.err # 0 THEN TinyDiag(u) /\ ~IsV(e.x)
     ELSE /\ Len(e.x) = n /\ IsV(e.x)
          /\ LET sc == MV(MMul(MAbs(l), MAbs(u)), [i \in 1..n |-> RAbs(e.x[i])]) r == MV(MMul(l, u), e.x) IN
             \A i \in 1..n : RLe(RAbs(RSub(r[i], e.b[i])), RMul(RMul(8 * n, R2Pow(-52)), RAdd(sc[i], RAbs(e.b[i]))))

(********************* eigenvalues *****************************************)
EigTol == "1e-6"
PairOK(a, lam, v, tol) ==
  LET n == Rows(a) r == MV(a, v) t == RMul(tol, NormInf(a)) IN
    /\ Len(v) = n /\ IsV(v) /\ RIsNum(lam)
    /\ Near(RDot(v, v), 1, "1e-9")
    /\ \A i \in 1..n : RLe(RAbs(RSub(r[i], RMul(lam, v[i]))), t)
ValOK(a, lam, tol) ==
  LET n == Rows(a) s == RAdd(NormInf(a), RAbs(lam)) IN
    RIsNum(lam) /\ RLe(RAbs(Det(MShift(a, RNeg(lam)))), RMul(RMul(tol, NormInf(a)), RMul(4 * n, RPow(s, n - 1))))
Trace2(a) == RSum(DiagOf(MMul(a, a)))
\* must: "conv" when the iteration must converge to e.want, "want" when it may also report failure
\* (a Rayleigh iteration that meets an eigenvalue exactly ends on a singular system), else "no"
EigOK(e) ==
  LET n == Rows(e.a) fits == Square(e.a) /\ Len(e.x) = n IN
  IF ~fits THEN e.err # 0 /\ (e.f # "vec" => ~RIsNum(e.r))
  ELSE IF e.err # 0 THEN e.must # "conv" /\ (e.f # "vec" => ~RIsNum(e.r))
  ELSE CASE e.f \in {"pow", "inv", "ray"} -> ValOK(e.a, e.r, EigTol)
         [] e.f \in {"powp", "invp", "rayp"} -> PairOK(e.a, e.r, e.v, EigTol)
         [] e.f = "rayt" -> ValOK(e.a, e.r, "1e-3")              \* asked for 1e-2
         [] e.f = "raypt" -> PairOK(e.a, e.r, e.v, "1e-2")
         [] e.f = "vec" -> \* the eigenvalue is the Rayleigh quotient of the vector
              PairOK(e.a, RDiv(RDot(e.v, MV(e.a, e.v)), RDot(e.v, e.v)), e.v, EigTol)
       /\ e.must # "no" => Near(IF e.f = "vec" THEN RDiv(RDot(e.v, MV(e.a, e.v)), RDot(e.v, e.v)) ELSE e.r, e.want, RMul("1e-5", NormInf(e.a)))
RayOK(e) ==
  LET p == RDot(e.x, e.x) IN
  IF RLt(p, R2Pow(-52)) THEN e.err # 0 /\ ~RIsNum(e.r)
  ELSE LET n == Rows(e.a) sc == RDiv(RDot([i \in 1..n |-> RAbs(e.x[i])], MV(MAbs(e.a), [i \in 1..n |-> RAbs(e.x[i])])), p) IN
       e.err = 0 /\ Ulps(e.r, RDiv(RDot(e.x, MV(e.a, e.x)), p), 4 * n + 4, sc)

(******************** complex, through the real 2n x 2n form ***************)
Emb(m) == LET n == Rows(m) k == Cols(m) IN
  Mat(2 * n, 2 * k, LAMBDA i, j : LET z == m[1 + ((i - 1) % n)][1 + ((j - 1) % k)] IN
     IF i <= n THEN (IF j <= k THEN z[1] ELSE RNeg(z[2])) ELSE (IF j <= k THEN z[2] ELSE z[1]))
VEmb(x) == [i \in 1..(2 * Len(x)) |-> IF i <= Len(x) THEN x[i][1] ELSE x[i - Len(x)][2]]
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CAddz(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CDet(m) == CASE Rows(m) = 1 -> m[1][1]
             [] Rows(m) = 2 -> CSub(CMul(m[1][1], m[2][2]), CMul(m[1][2], m[2][1]))
             [] Rows(m) = 3 -> LET c(i, j) == CSub(CMul(m[2][i], m[3][j]), CMul(m[2][j], m[3][i])) IN
                  CAddz(CMul(m[1][1], c(2, 3)), CAddz(CMul(m[1][2], c(3, 1)), CMul(m[1][3], c(1, 2))))
CLuOK(e) == LET n == Rows(e.a) l == Emb(e.l) u == Emb(e.u) IN
  IF e.err # 0 THEN ~GoodPivots(Emb(e.a)) \/ CSame(e.a[1][1], <<"0", "0">>)
  ELSE /\ IsM(l) /\ IsM(u)
       /\ \A i, j \in 1..n : (j > i => CSame(e.l[i][j], <<"0", "0">>)) /\ (j < i => CSame(e.u[i][j], <<"0", "0">>)) /\ (i = j => CSame(e.l[i][j], <<"1", "0">>))
       /\ NearM(MMul(l, u), Emb(e.a), 16 * n, MMul(MAbs(l), MAbs(u)))
CplxLinOK(e) ==
  CASE e.op = "csolve" -> SolveOK([a |-> Emb(e.a), b |-> VEmb(e.b), x |-> VEmb(e.x), err |-> e.err])
    [] e.op = "cinv" -> InvOK([a |-> Emb(e.a), r |-> Emb(e.r), err |-> e.err, fits |-> TRUE])
    [] e.op = "clu" -> CLuOK(e)
    [] e.op = "cdet" -> LET d == CDet(e.a) sc == RPow(NormInf(CAbs1(e.a)), Rows(e.a)) IN e.err = 0 /\ Ulps(e.r[1], d[1], K(2 * Rows(e.a)), sc) /\ Ulps(e.r[2], d[2], K(2 * Rows(e.a)), sc)

L0 == "-"
LNext(s, e) == s
LStep(s, e) ==
  /\ e.same
  /\ CASE e.op = "solve" -> SolveOK(e)
       [] e.op = "det" -> DetOK(e)
       [] e.op = "inv" -> InvOK(e)
       [] e.op = "lu" -> LuOK(e)
       [] e.op = "chol" -> ChOK(e)
       [] e.op = "tri" -> TriOK(e)
       [] e.op = "fac" -> FacOK(e)
       [] e.op = "eig" -> EigOK(e)
       [] e.op = "ray" -> RayOK(e)
       [] e.op \in {"csolve", "cinv", "clu", "cdet"} -> CplxLinOK(e)
       [] OTHER -> FALSE
=============================================================================
