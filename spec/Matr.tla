-------------------------------- MODULE Matr --------------------------------
(***************************************************************************)
(* A register machine over matrices.  A matrix is the sequence of its rows *)
(* whatever its kind (fixed or run-time size) and storage order; a vector  *)
(* register is a matrix of one row.  Every event logs all registers after  *)
(* the operation: the target holds the mathematical result up to rounding, *)
(* every other register is unchanged, and the error number is set exactly  *)
(* when the shapes do not fit, in which case the target is an error matrix.*)
(***************************************************************************)
EXTENDS Rat, TLC

Rows(m) == Len(m)
Cols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Mat(n, k, f(_, _)) == Eager([i \in 1..n |-> [j \in 1..k |-> f(i, j)]])
SameShape(m, p) == Rows(m) = Rows(p) /\ Cols(m) = Cols(p)
Col(m, j) == [i \in 1..Rows(m) |-> m[i][j]]
Tr(m) == Mat(Cols(m), Rows(m), LAMBDA i, j : m[j][i])
MMul(m, p) == LET q == Tr(p) IN Mat(Rows(m), Cols(p), LAMBDA i, j : RDot(m[i], q[j]))
MMulScale(m, p) == LET q == Tr(p) IN Mat(Rows(m), Cols(p), LAMBDA i, j : RDotAbs(m[i], q[j]))
MAdd(m, p) == Mat(Rows(m), Cols(m), LAMBDA i, j : RAdd(m[i][j], p[i][j]))
MSub(m, p) == Mat(Rows(m), Cols(m), LAMBDA i, j : RSub(m[i][j], p[i][j]))
MLin(x, m, y, p) == Mat(Rows(m), Cols(m), LAMBDA i, j : RAdd(RMul(x, m[i][j]), RMul(y, p[i][j])))
MLinScale(x, m, y, p) == Mat(Rows(m), Cols(m), LAMBDA i, j : RAdd(RAbs(RMul(x, m[i][j])), RAbs(RMul(y, p[i][j]))))
MScal(x, m) == Mat(Rows(m), Cols(m), LAMBDA i, j : RMul(x, m[i][j]))
MDiv(m, x) == Mat(Rows(m), Cols(m), LAMBDA i, j : RDiv(m[i][j], x))
MAbs(m) == Mat(Rows(m), Cols(m), LAMBDA i, j : RAbs(m[i][j]))
MDiag(n, k, x) == Mat(n, k, LAMBDA i, j : IF i = j THEN x ELSE "0")
MSwapRows(m, a, b) == [m EXCEPT ![a] = m[b], ![b] = m[a]]
MSwapCols(m, a, b) == Tr(MSwapRows(Tr(m), a, b))
MShift(m, x) == Mat(Rows(m), Cols(m), LAMBDA i, j : IF i = j THEN RAdd(m[i][j], x) ELSE m[i][j])
MResize(m, n, k) == Mat(n, k, LAMBDA i, j : IF i <= Rows(m) /\ j <= Cols(m) THEN m[i][j] ELSE "0")
MinRC(m) == IF Rows(m) < Cols(m) THEN Rows(m) ELSE Cols(m)
DiagOf(m) == [i \in 1..MinRC(m) |-> m[i][i]]
Flat(m) == LET k == Cols(m) IN [n \in 1..(Rows(m) * k) |-> m[1 + ((n - 1) \div k)][1 + ((n - 1) % k)]]
IsM(m) == \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : RIsNum(m[i][j])

SameE(x, y) == IF RIsNum(y) THEN REq(x, y) ELSE ~RIsNum(x)
SameM(v, m) == SameShape(v, m) /\ \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : SameE(v[i][j], m[i][j])
\* v is m up to k units of rounding on the scale sc; nan where an operand is nan
NearM(v, m, k, sc) ==
  SameShape(v, m) /\ \A i \in 1..Rows(m) : \A j \in 1..Cols(m) :
     IF ~RIsNum(m[i][j]) THEN ~RIsNum(v[i][j])
     ELSE RLt(R2Pow(900), sc[i][j]) \/ Ulps(v[i][j], m[i][j], k, sc[i][j])
ErrM(v) == \E i \in 1..Rows(v) : \E j \in 1..Cols(v) : ~RIsNum(v[i][j])
Tiny(x) == RLt(RAbs(x), R2Pow(-52))

Fits(s, e) ==
  CASE e.op \in {"add", "sub"} -> SameShape(s[e.p], s[e.q]) /\ (e.tn > 0 => SameShape(s[e.t], s[e.p]))
    [] e.op \in {"iadd", "isub", "lin2"} -> SameShape(s[e.t], s[e.p])
    [] e.op = "lin3" -> SameShape(s[e.p], s[e.q]) /\ SameShape(s[e.t], s[e.p])
    [] e.op = "mul" -> Cols(s[e.p]) = Rows(s[e.q]) /\ (e.tn > 0 => Rows(s[e.t]) = Rows(s[e.p]) /\ Cols(s[e.t]) = Cols(s[e.q]))
    [] e.op = "imul" -> Cols(s[e.t]) = Rows(s[e.p]) /\ (e.tn > 0 => Cols(s[e.p]) = Cols(s[e.t]))
    [] e.op = "tmul" -> Rows(s[e.p]) = Rows(s[e.q])
    [] e.op = "mult" -> Cols(s[e.p]) = Cols(s[e.q])
    [] e.op \in {"tr", "herm"} -> e.tn > 0 => Rows(s[e.t]) = Cols(s[e.p]) /\ Cols(s[e.t]) = Rows(s[e.p])
    [] e.op \in {"itr", "iherm"} -> Rows(s[e.t]) = Cols(s[e.t])
    [] e.op = "scal" -> e.tn > 0 => SameShape(s[e.t], s[e.p])
    [] e.op \in {"div", "idiv"} -> ~Tiny(e.x)
    [] e.op = "swr" -> e.i < Rows(s[e.t]) /\ e.j < Rows(s[e.t])
    [] e.op = "swc" -> e.i < Cols(s[e.t]) /\ e.j < Cols(s[e.t])
    [] e.op = "copy" -> e.tn > 0 => SameShape(s[e.t], s[e.p])
    [] e.op = "diag" -> e.tn > 0 => Rows(s[e.t]) = e.n /\ Cols(s[e.t]) = e.k
    [] e.op = "rows" -> /\ \A i \in 1..Len(e.l) : Len(e.l[i]) = Len(e.l[1])
                        /\ e.tn > 0 => Rows(s[e.t]) = Len(e.l) /\ Cols(s[e.t]) = Len(e.l[1])
    [] e.op = "mv" -> Cols(s[e.p]) = Cols(s[e.q]) /\ (e.tn > 0 => Cols(s[e.t]) = Rows(s[e.p]))
    [] e.op = "apply" -> Cols(s[e.p]) = Cols(s[e.t]) /\ (e.tn > 0 => Cols(s[e.t]) = Rows(s[e.p]))
    [] e.op = "vm" -> Rows(s[e.q]) = Cols(s[e.p])
    [] OTHER -> TRUE

TargetOK(s, e) ==
  LET v == e.regs[e.t] IN
  IF ~Fits(s, e) THEN ErrM(v) \/ e.op = "diag"      \* a fixed-size diagonal matrix keeps its own shape
  ELSE
  CASE e.op = "add" -> LET m == MAdd(s[e.p], s[e.q]) IN NearM(v, m, 1, MAbs(m))
    [] e.op = "sub" -> LET m == MSub(s[e.p], s[e.q]) IN NearM(v, m, 1, MAbs(m))
    [] e.op = "iadd" -> LET m == MAdd(s[e.t], s[e.p]) IN NearM(v, m, 1, MAbs(m))
    [] e.op = "isub" -> LET m == MSub(s[e.t], s[e.p]) IN NearM(v, m, 1, MAbs(m))
    [] e.op = "lin2" -> NearM(v, MLin(e.x, s[e.t], e.y, s[e.p]), 2, MLinScale(e.x, s[e.t], e.y, s[e.p]))
    [] e.op = "lin3" -> NearM(v, MLin(e.x, s[e.p], e.y, s[e.q]), 2, MLinScale(e.x, s[e.p], e.y, s[e.q]))
    [] e.op = "mul" -> NearM(v, MMul(s[e.p], s[e.q]), 1 + Cols(s[e.p]), MMulScale(s[e.p], s[e.q]))
    [] e.op = "imul" -> NearM(v, MMul(s[e.t], s[e.p]), 1 + Cols(s[e.t]), MMulScale(s[e.t], s[e.p]))
    [] e.op = "tmul" -> LET a == Tr(s[e.p]) IN NearM(v, MMul(a, s[e.q]), 1 + Cols(a), MMulScale(a, s[e.q]))
    [] e.op = "mult" -> LET a == Tr(s[e.q]) IN NearM(v, MMul(s[e.p], a), 1 + Rows(a), MMulScale(s[e.p], a))
    [] e.op \in {"tr", "herm"} -> SameM(v, Tr(s[e.p]))
    [] e.op \in {"itr", "iherm"} -> SameM(v, Tr(s[e.t]))
    [] e.op = "scal" -> LET m == MScal(e.x, s[e.p]) IN NearM(v, m, 1, MAbs(m))
    [] e.op = "iscal" -> LET m == MScal(e.x, s[e.t]) IN NearM(v, m, 1, MAbs(m))
    [] e.op = "div" -> LET m == MDiv(s[e.p], e.x) IN NearM(v, m, 2, MAbs(m))
    [] e.op = "idiv" -> LET m == MDiv(s[e.t], e.x) IN NearM(v, m, 2, MAbs(m))
    [] e.op = "set" -> SameM(v, [s[e.t] EXCEPT ![e.i + 1][e.j + 1] = e.x])
    [] e.op = "swr" -> SameM(v, MSwapRows(s[e.t], e.i + 1, e.j + 1))
    [] e.op = "swc" -> SameM(v, MSwapCols(s[e.t], e.i + 1, e.j + 1))
    [] e.op = "shift" -> LET m == MShift(s[e.t], e.x) IN NearM(v, m, 1, MAbs(m))
    [] e.op = "zero" -> SameM(v, MDiag(Rows(s[e.t]), Cols(s[e.t]), "0"))
    [] e.op = "ident" -> SameM(v, MDiag(Rows(s[e.t]), Cols(s[e.t]), "1"))
    [] e.op = "diag" -> SameM(v, MDiag(e.n, e.k, e.x))
    [] e.op = "rows" -> SameM(v, e.l)
    [] e.op = "resize" -> SameM(v, MResize(s[e.t], e.n, e.k))
    [] e.op \in {"copy"} -> SameM(v, s[e.p])
    [] e.op = "vset" -> SameM(v, <<e.l>>)
    [] e.op = "mv" -> LET a == Tr(s[e.p]) IN NearM(v, MMul(s[e.q], a), 1 + Rows(a), MMulScale(s[e.q], a))
    [] e.op = "apply" -> LET a == Tr(s[e.p]) IN NearM(v, MMul(s[e.t], a), 1 + Rows(a), MMulScale(s[e.t], a))
    [] e.op = "vm" -> NearM(v, MMul(s[e.p], s[e.q]), 1 + Rows(s[e.q]), MMulScale(s[e.p], s[e.q]))

(* a predicate with a tolerance: certainly true below 0.99 tol, certainly false above 1.01 tol *)
Pred(r, shape, devs, tol) ==
  IF ~shape THEN r = FALSE
  ELSE LET big(f) == \E d \in devs : RLt(RMul(f, tol), RAbs(d))
       IN (big("1.01") => ~r) /\ (~big("0.99") => r)
Square(m) == Rows(m) = Cols(m)
Ix(m) == (1..Rows(m)) \X (1..Cols(m))
Tol == RMul(10, R2Pow(-52))
Entries(m) == {m[p[1]][p[2]] : p \in Ix(m)}
Count(m, t) == LET f == Flat(m) IN
               RSum([i \in 1..Len(f) |-> IF RLt(t, RAbs(f[i])) THEN 1 ELSE 0])
ShowRow(v) == LET f[i \in 0..Len(v)] == IF i = 0 THEN "" ELSE f[i - 1] \o (IF i > 1 THEN ", " ELSE "") \o RCanon(v[i]) IN "(" \o f[Len(v)] \o ")\n"
ShowM(m) == LET f[i \in 0..Rows(m)] == IF i = 0 THEN "" ELSE f[i - 1] \o ShowRow(m[i]) IN f[Rows(m)]
Printable(m) == \A x \in Entries(m) : RIsNum(x) /\ RIsInt(x) /\ RLt(RAbs(x), 100000)

Query == {"trace", "dprod", "preds", "dens", "eq", "iter", "print", "size", "elem"}
ValueOK(s, e) ==
  LET m == s[e.p] IN
  CASE e.op = "trace" -> IF IsM(<<DiagOf(m)>>) THEN Ulps(e.r, RSum(DiagOf(m)), Rows(m) + 1, RSumAbs(DiagOf(m))) ELSE ~RIsNum(e.r)
    [] e.op = "dprod" -> IF IsM(<<DiagOf(m)>>) THEN Ulps(e.r, RProd(DiagOf(m)), Rows(m) + 1, RAbs(RProd(DiagOf(m)))) ELSE ~RIsNum(e.r)
    [] e.op = "preds" -> IsM(m) =>
           /\ e.sq = Square(m)
           /\ Pred(e.di, TRUE, {m[p[1]][p[2]] : p \in {q \in Ix(m) : q[1] # q[2]}}, Tol)
           /\ Pred(e.sy, Square(m), IF Square(m) THEN {RSub(m[p[1]][p[2]], m[p[2]][p[1]]) : p \in Ix(m)} ELSE {}, Tol)
           /\ Pred(e.lo, Square(m), {m[p[1]][p[2]] : p \in {q \in Ix(m) : q[1] < q[2]}}, Tol)
           /\ Pred(e.up, Square(m), {m[p[1]][p[2]] : p \in {q \in Ix(m) : q[1] > q[2]}}, Tol)
    [] e.op = "dens" -> IsM(m) => LET d == RDiv(Count(m, "1e-12"), Rows(m) * Cols(m)) IN Ulps(e.r, d, 2, 1) /\ Ulps(e.sp, RSub(1, d), 3, 1)
    [] e.op = "eq" -> LET q == s[e.q] IN
           /\ e.ne = ~e.r
           /\ IF IsM(m) /\ IsM(q) THEN Pred(e.r, SameShape(m, q), IF SameShape(m, q) THEN {RSub(m[p[1]][p[2]], q[p[1]][p[2]]) : p \in Ix(m)} ELSE {}, Tol)
              ELSE e.r = FALSE
    [] e.op = "iter" -> SameM(<<e.r>>, <<Flat(m)>>) /\ SameM(<<e.rc>>, <<Flat(m)>>) /\ e.order
    [] e.op = "print" -> Printable(m) => e.r = ShowM(m)
    [] e.op = "size" -> e.n = Rows(m) /\ e.k = Cols(m) /\ e.r = Rows(m) * Cols(m)
    [] e.op = "elem" -> SameE(e.r, m[e.i + 1][e.j + 1])

\* complex matrices: entries <<re, im>>
CConj(z) == <<z[1], RNeg(z[2])>>
CSame(z, w) == REq(z[1], w[1]) /\ REq(z[2], w[2])
CSameM(v, m) == SameShape(v, m) /\ \A i \in 1..Rows(m) : \A j \in 1..Cols(m) : CSame(v[i][j], m[i][j])
CRe(m) == Mat(Rows(m), Cols(m), LAMBDA i, j : m[i][j][1])
CIm(m) == Mat(Rows(m), Cols(m), LAMBDA i, j : m[i][j][2])
CAbs1(m) == Mat(Rows(m), Cols(m), LAMBDA i, j : RAdd(RAbs(m[i][j][1]), RAbs(m[i][j][2])))
CplxOK(e) ==
  CASE e.op \in {"cherm", "ciherm"} -> CSameM(e.r, Mat(Cols(e.m), Rows(e.m), LAMBDA i, j : CConj(e.m[j][i])))
    [] e.op = "ctr" -> CSameM(e.r, Mat(Cols(e.m), Rows(e.m), LAMBDA i, j : e.m[j][i]))
    [] e.op = "cmul" -> LET sc == MMul(CAbs1(e.m), CAbs1(e.q)) k == 4 * Cols(e.m) + 4 IN
          /\ NearM(CRe(e.r), MSub(MMul(CRe(e.m), CRe(e.q)), MMul(CIm(e.m), CIm(e.q))), k, sc)
          /\ NearM(CIm(e.r), MAdd(MMul(CRe(e.m), CIm(e.q)), MMul(CIm(e.m), CRe(e.q))), k, sc)

Regs == {"a", "b", "c", "d", "e", "w", "x", "y"}
M0 == [r \in Regs |-> <<>>]
MStep(s, e) ==
  CASE e.op = "new" -> e.err = 0 /\ \A r \in Regs : SameM(e.regs[r], MDiag(Rows(e.regs[r]), Cols(e.regs[r]), "0"))
    [] e.op \in {"cherm", "ciherm", "ctr", "cmul"} -> CplxOK(e) /\ e.err = 0
    [] e.op \in Query -> /\ \A r \in Regs : SameM(e.regs[r], s[r])
                         /\ e.err = 0 /\ ValueOK(s, e)
    [] OTHER -> /\ TargetOK(s, e)
                /\ \A r \in Regs \ {e.t} : SameM(e.regs[r], s[r])
                /\ (e.err = 0) = Fits(s, e)
MNext(s, e) == IF e.op \in {"cherm", "ciherm", "ctr", "cmul"} THEN s ELSE e.regs
=============================================================================
