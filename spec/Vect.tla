-------------------------------- MODULE Vect --------------------------------
(***************************************************************************)
(* A register machine over vectors.  The state maps registers to sequences *)
(* of numbers.  Registers a, b, c hold one kind of vector (fixed size or   *)
(* run-time size), w the other kind.  Every event logs all registers after *)
(* the operation: the target must be the mathematical result up to one     *)
(* rounding per element, every other register must be unchanged, and the   *)
(* error number must be set exactly when the operation is not defined.     *)
(***************************************************************************)
EXTENDS Rat, Encl, TLC

EqR(x, y, k) == IF RIsNum(y) THEN (RLt(R2Pow(1000), RAbs(y)) \/ Ulps(x, y, k, RAbs(y))) ELSE ~RIsNum(x)
EqV(v, w, k) == Len(v) = Len(w) /\ \A i \in 1..Len(w) : EqR(v[i], w[i], k)
SameV(v, w)  == Len(v) = Len(w) /\ \A i \in 1..Len(w) : IF RIsNum(w[i]) THEN REq(v[i], w[i]) ELSE v[i] = w[i]
AllNaN(v)    == Len(v) > 0 /\ \A i \in 1..Len(v) : v[i] = "nan"
IsV(v)       == \A i \in 1..Len(v) : RIsNum(v[i])

VAdd(v, w) == [i \in 1..Len(v) |-> RAdd(v[i], w[i])]
VSub(v, w) == [i \in 1..Len(v) |-> RSub(v[i], w[i])]
VMul(x, v) == [i \in 1..Len(v) |-> RMul(x, v[i])]
VDiv(v, x) == [i \in 1..Len(v) |-> RDiv(v[i], x)]
VNeg(v)    == [i \in 1..Len(v) |-> RNeg(v[i])]
VFill(n, x) == [i \in 1..n |-> x]
VBase(n, i) == [j \in 1..n |-> IF j = i + 1 THEN "1" ELSE "0"]
Cross(v, w) == <<RSub(RMul(v[2], w[3]), RMul(v[3], w[2])), RSub(RMul(v[3], w[1]), RMul(v[1], w[3])),
                 RSub(RMul(v[1], w[2]), RMul(v[2], w[1]))>>
CrossScale(v, w) == <<RAdd(RAbs(RMul(v[2], w[3])), RAbs(RMul(v[3], w[2]))), RAdd(RAbs(RMul(v[3], w[1])), RAbs(RMul(v[1], w[3]))),
                 RAdd(RAbs(RMul(v[1], w[2])), RAbs(RMul(v[2], w[1])))>>
DotOK(r, v, w) == IF IsV(v) /\ IsV(w) THEN Ulps(r, RDot(v, w), Len(v) + 1, RDotAbs(v, w)) ELSE ~RIsNum(r)
NormE(v) == SqrtE(RDot(v, v))
NormOK(r, v) == IF IsV(v) THEN LET n == NormE(v) IN InEncl(r, n, RMul(RMul(Len(v) + 4, R2Pow(-52)), n[2])) ELSE ~RIsNum(r)
UnitOK(u, v) == /\ Len(u) = Len(v)
                /\ IF IsV(v) THEN \A i \in 1..Len(v) :
                       LET q == IMul(Pt(v[i]), IInv(NormE(v))) IN InEncl(u[i], q, RMul(RMul(Len(v) + 6, R2Pow(-52)), IAbsMax(q)))
                   ELSE \A i \in 1..Len(v) : ~RIsNum(u[i])
ShowV(v) == LET f[i \in 0..Len(v)] == IF i = 0 THEN "" ELSE f[i - 1] \o (IF i > 1 THEN ", " ELSE "") \o RCanon(v[i]) IN "(" \o f[Len(v)] \o ")"
Printable(v) == Len(v) > 0 /\ \A i \in 1..Len(v) : RIsNum(v[i]) /\ RIsInt(v[i]) /\ RLt(RAbs(v[i]), 100000) /\ v[i] # "-0x0p+0"

Tiny(x) == RLt(RAbs(x), R2Pow(-52))

\* sizes must agree; a run-time-size vector of no elements is an unset one for +=
Fits(s, e) ==
  CASE e.op \in {"add", "sub", "addw", "subw", "vsum3", "vdiff3"} -> Len(s[e.p]) = Len(s[e.q]) /\ (e.op \in {"vsum3", "vdiff3"} => Len(s[e.t]) = Len(s[e.p]))
    [] e.op = "iadd" -> Len(s[e.t]) = Len(s[e.p]) \/ (e.dyn /\ Len(s[e.t]) = 0)
    [] e.op \in {"isub", "vsum2", "vdiff2"} -> Len(s[e.t]) = Len(s[e.p])
    [] e.op = "vscal3" -> Len(s[e.t]) = Len(s[e.p])
    [] e.op = "dot" -> Len(s[e.p]) = Len(s[e.q])
    [] e.op = "cross" -> Len(s[e.p]) = 3 /\ Len(s[e.q]) = 3
    [] e.op \in {"idiv"} -> ~Tiny(e.x)
    [] e.op \in {"normalize"} -> ~IsV(s[e.t]) \/ RLe(R2Pow(-104), RDot(s[e.t], s[e.t]))
    [] e.op \in {"normalized"} -> ~IsV(s[e.p]) \/ RLe(R2Pow(-104), RDot(s[e.p], s[e.p]))
    [] e.op = "base" -> e.i < e.n
    [] e.op = "copy" -> e.tfix = 0 \/ Len(s[e.p]) = e.tfix
    [] e.op = "list" -> e.tfix = 0 \/ Len(e.l) = e.tfix
    [] OTHER -> TRUE

\* the vector the target must hold afterwards: value and units of rounding
Result(s, e) ==
  CASE e.op \in {"add", "addw", "vsum3"} -> VAdd(s[e.p], s[e.q])
    [] e.op \in {"sub", "subw", "vdiff3"} -> VSub(s[e.p], s[e.q])
    [] e.op = "iadd" -> IF Len(s[e.t]) = 0 THEN s[e.p] ELSE VAdd(s[e.t], s[e.p])
    [] e.op = "vsum2" -> VAdd(s[e.t], s[e.p])
    [] e.op \in {"isub", "vdiff2"} -> VSub(s[e.t], s[e.p])
    [] e.op = "neg" -> VNeg(s[e.p])
    [] e.op = "pos" -> s[e.p]
    [] e.op \in {"smul", "vscal3"} -> VMul(e.x, s[e.p])
    [] e.op = "sdiv" -> VDiv(s[e.p], e.x)
    [] e.op \in {"imul", "vscal2"} -> VMul(e.x, s[e.t])
    [] e.op = "idiv" -> VDiv(s[e.t], e.x)
    [] e.op = "set" -> [s[e.t] EXCEPT ![e.i + 1] = e.x]
    [] e.op = "fill" -> VFill(e.n, e.x)
    [] e.op = "zeroes" -> VFill(Len(s[e.t]), "0")
    [] e.op = "base" -> VBase(e.n, e.i)
    [] e.op = "copy" -> s[e.p]
    [] e.op = "list" -> e.l
    [] e.op = "push" -> Append(s[e.t], e.x)
    [] e.op = "resize" -> [i \in 1..e.n |-> IF i <= Len(s[e.t]) THEN s[e.t][i] ELSE "0"]

Query == {"dot", "norm", "sqrnorm", "eq", "iter", "print", "elem", "size"}
Stateless == {"cdot", "cnorm", "ccross"}

ValueOK(s, e) ==
  CASE e.op = "dot" -> DotOK(e.r, s[e.p], s[e.q])
    [] e.op = "norm" -> NormOK(e.r, s[e.p])
    [] e.op = "sqrnorm" -> DotOK(e.r, s[e.p], s[e.p])
    [] e.op = "eq" -> LET same == Len(s[e.p]) = Len(s[e.q]) /\ \A i \in 1..Len(s[e.p]) : REq(s[e.p][i], s[e.q][i])
                      IN e.r = same /\ e.ne = ~same
    [] e.op = "iter" -> SameV(e.r, s[e.p]) /\ SameV(e.rc, s[e.p])
    [] e.op = "print" -> Printable(s[e.p]) => e.r = ShowV(s[e.p])
    [] e.op = "elem" -> IF RIsNum(s[e.p][e.i + 1]) THEN REq(e.r, s[e.p][e.i + 1]) ELSE ~RIsNum(e.r)
    [] e.op = "size" -> e.r = Len(s[e.p])

\* complex vectors: elements <<re, im>>; the product conjugates its second argument
CRe(v) == [i \in 1..Len(v) |-> v[i][1]]
CIm(v) == [i \in 1..Len(v) |-> v[i][2]]
CplxOK(e) ==
  CASE e.op = "cdot" ->
         LET re == RAdd(RDot(CRe(e.v), CRe(e.w)), RDot(CIm(e.v), CIm(e.w)))
             im == RSub(RDot(CIm(e.v), CRe(e.w)), RDot(CRe(e.v), CIm(e.w)))
             sc == RMul(RSum([i \in 1..Len(e.v) |-> RAdd(RAbs(e.v[i][1]), RAbs(e.v[i][2]))]), RSum([i \in 1..Len(e.w) |-> RAdd(RAbs(e.w[i][1]), RAbs(e.w[i][2]))]))
         IN Ulps(e.r[1], re, 2 * Len(e.v) + 2, sc) /\ Ulps(e.r[2], im, 2 * Len(e.v) + 2, sc)
    [] e.op = "cnorm" ->
         LET q == RAdd(RDot(CRe(e.v), CRe(e.v)), RDot(CIm(e.v), CIm(e.v))) n == SqrtE(q)
         IN /\ InEncl(e.r[1], n, RMul(RMul(2 * Len(e.v) + 10, R2Pow(-52)), n[2])) /\ Ulps(e.r[2], 0, 100, n[2])
            /\ Ulps(e.sq[1], q, 2 * Len(e.v) + 2, q) /\ Ulps(e.sq[2], 0, 2 * Len(e.v) + 2, q)
            /\ \A i \in 1..Len(e.v) : \A k \in 1..2 : Ulps(e.u[i][k], RDiv(e.v[i][k], IMid(n)), 2 * Len(e.v) + 60, 1)

\* target of an operation: which register may change, and to what
TargetOK(s, e) ==
  LET v == e.regs[e.t] IN
    IF ~Fits(s, e) THEN AllNaN(v)
    ELSE CASE e.op = "cross" -> /\ Len(v) = 3
                                /\ IF IsV(s[e.p]) /\ IsV(s[e.q])
                                   THEN LET w == Cross(s[e.p], s[e.q]) c == CrossScale(s[e.p], s[e.q]) IN \A i \in 1..3 : Ulps(v[i], w[i], 2, c[i])
                                   ELSE \E i \in 1..3 : ~RIsNum(v[i])
           [] e.op = "normalize" -> UnitOK(v, s[e.t])
           [] e.op = "normalized" -> UnitOK(v, s[e.p])
           [] e.op \in {"set", "pos", "copy", "list", "fill", "zeroes", "base", "push", "resize", "neg"} -> SameV(v, Result(s, e))
           [] OTHER -> EqV(v, Result(s, e), 1)

Regs == {"a", "b", "c", "w"}
M0 == [r \in Regs |-> <<>>]
MStep(s, e) ==
  CASE e.op = "new" -> e.err = 0
    [] e.op \in Stateless -> CplxOK(e) /\ e.err = 0
    [] e.op \in Query -> /\ \A r \in Regs : SameV(e.regs[r], s[r])
                         /\ IF Fits(s, e) THEN e.err = 0 /\ ValueOK(s, e) ELSE e.err # 0 /\ e.r = "nan"
    [] OTHER -> /\ TargetOK(s, e)
                /\ \A r \in Regs \ {e.t} : SameV(e.regs[r], s[r])
                /\ (e.err = 0) = Fits(s, e)
MNext(s, e) == IF e.op \in Stateless THEN s ELSE e.regs
=============================================================================
