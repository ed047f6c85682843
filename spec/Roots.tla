------------------------------- MODULE Roots --------------------------------
(***************************************************************************)
(* Root finding.  A bracketing method is judged by the evaluations it made *)
(* of the function: they lie in the bracket, and the value returned lies   *)
(* between (or at) two of them, at most twice the tolerance apart, where   *)
(* the function has opposite signs.  An open method is judged by the exact *)
(* residual at the point it returns.  What cannot be found is refused.     *)
(***************************************************************************)
EXTENDS Ode, Poly

Refused(e) == e.err # 0 /\ e.r = "nan"
RFact(n) == RProd([i \in 1..n |-> i])
Sg(y) == IF ~RIsNum(y) THEN (IF y = "inf" THEN 1 ELSE IF y = "-inf" THEN -1 ELSE 0) ELSE IF RLt(0, y) THEN 1 ELSE IF RLt(y, 0) THEN -1 ELSE 0
Wid(e) == RMul(RMul(8, U), RMax(RAbs(e.a), RAbs(e.b)))               \* rounding of a point of the interval
InSeg(x, a, b, w) == RIsNum(x) /\ RLe(RSub(a, w), x) /\ RLe(x, RAdd(b, w))

(* calls is a sequence of <<x, y>>: two of them, or one, enclose a change of sign next to r *)
Change(calls, r, tol, w) ==
  LET d == RAdd(RMul(2, tol), w)
      near == {i \in 1..Len(calls) : RLe(RAbs(RSub(calls[i][1], r)), d)}
  IN  \E i, j \in near : /\ Sg(calls[i][2]) * Sg(calls[j][2]) <= 0
                         /\ i = j => Sg(calls[i][2]) = 0 /\ calls[i][2] # "nan"
                         /\ RLe(RAbs(RSub(calls[i][1], calls[j][1])), d)
ValAt(calls, x) == LET S == {i \in 1..Len(calls) : REq(calls[i][1], x)} IN IF S = {} THEN "none" ELSE calls[CHOOSE i \in S : \A j \in S : i <= j][2]
\* a tolerance the arithmetic can reach, and enough iterations to halve the interval down to it
Reach(e) == RLe(RMul(8, Wid(e)), e.tol)
Halves(e) == RLe(RSub(e.b, e.a), RMul(RMul(2, e.tol), R2Pow(e.max - 1)))
BracketOK(e) ==
  /\ ~e.loop
  /\ IF RLt(e.b, e.a) THEN Refused(e)
     ELSE LET ya == ValAt(e.calls, e.a) yb == ValAt(e.calls, e.b)
          IN  /\ ya # "none" /\ yb # "none"
              /\ \A i \in 1..Len(e.calls) : InSeg(e.calls[i][1], e.a, e.b, Wid(e))
              /\ IF Sg(ya) * Sg(yb) >= 0 THEN Refused(e)
                 ELSE IF e.err = 0 THEN InSeg(e.r, e.a, e.b, Wid(e)) /\ Change(e.calls, e.r, e.tol, Wid(e))
                 ELSE e.r = "nan" /\ ~(Reach(e) /\ Halves(e))

(***************************** open methods ********************************)
Resid(e) == RAbs(YVal(e.p, e.r))
Noise(p, x) == RMul(RMul(4 * (Len(p) + 2), U), YVal(YAbs(p), RAbs(x)))
\* Taylor coefficients of p at x
Tay(p, x) == LET f[k \in 1..Len(p)] == IF k = 1 THEN p ELSE YDer(Eager(f[k - 1]))
             IN  Eager([k \in 1..Len(p) |-> RDiv(YVal(f[k], x), RFact(k - 1))])
\* the starting point is well inside the region of fast convergence (Smale's alpha test with room),
\* also for a method that moves by the value of the function
Close(p, x) ==
  LET c == Tay(p, x)
  IN  /\ Len(p) >= 2 /\ ~REq(c[2], 0)
      /\ LET b == RMax(RAbs(RDiv(c[1], c[2])), RAbs(c[1])) IN
         /\ \A k \in 3..Len(p) : RLe(RMul(RAbs(c[k]), RPow(b, k - 2)), RMul(RAbs(c[2]), RPow("1/1000", k - 2)))
         /\ RLe(RAbs(c[1]), "1e3")
Sure(e) == /\ e.max >= 6 /\ Close(e.p, e.guess)
           /\ RLe(RMul(1000, Noise(e.p, RAdd(RAbs(e.guess), 1))), e.tol)
           /\ RLe(RMul(RAbs(YVal(e.p, e.guess)), "1e-15"), e.tol)
OpenOK(e) == /\ ~e.loop
             /\ IF e.err = 0 THEN RIsNum(e.r) /\ RLe(Resid(e), RAdd(RMul(e.tol, RAdd(1, U)), Noise(e.p, e.r)))
                ELSE e.r = "nan" /\ ~Sure(e)
(* A method of order q takes an error x near the root 0 of p (of slope p[2], the other coefficients not larger)
   to about x^q, up to the rounding of its step; one iteration more is granted. *)
Ordr(m) == CASE m \in {"newton", "newtonf", "newtond", "steffensen"} -> 2 [] m \in {"halley", "halleyd", "chebyshev", "chebyshevd"} -> 3 [] m \in {"ostrowski", "jarrat"} -> 4
Iters(e) ==
  LET q == Ordr(e.m)
      f[k \in 0..12] == IF k = 0 THEN RAbs(e.guess) ELSE LET x == Eager(f[k - 1]) IN RMax(RDiv(RPow(RMul(3, x), q), 3), RMul(RMul(256, U), x))
  IN  CHOOSE k \in 0..12 : RLe(RMul(RMul(2, RAbs(e.p[2])), f[k]), e.tol) /\ \A j \in 0..(k - 1) : ~RLe(RMul(RMul(2, RAbs(e.p[2])), f[j]), e.tol)
OrderOK(e) == /\ REq(e.p[1], 0) /\ (\A k \in 3..Len(e.p) : RLe(RAbs(e.p[k]), RAbs(e.p[2]))) /\ RLe(RAbs(e.guess), "1/99")      \* (well posed)
              /\ ~e.loop /\ e.err = 0 /\ RIsNum(e.r) /\ RLe(Resid(e), RMul(e.tol, "1.000001")) /\ e.it <= Iters(e) + 1
(* complex polynomials: coefficients and points are pairs *)
CVal(p, z) == LET f[i \in 0..Len(p)] == IF i = 0 THEN <<"0", "0">> ELSE CAdd(CMul(Eager(f[i - 1]), z), p[Len(p) + 1 - i]) IN Eager(f[Len(p)])
CDer(p) == [i \in 1..(Len(p) - 1) |-> CScal(i, p[i + 1])]
CMajor(p, z) == YVal([i \in 1..Len(p) |-> CAbs1(p[i])], CAbs1(z))
CTay(p, x) == LET f[k \in 1..Len(p)] == IF k = 1 THEN p ELSE CDer(Eager(f[k - 1]))
              IN  Eager([k \in 1..Len(p) |-> CScal(RInv(RFact(k - 1)), CVal(f[k], x))])
CClose(p, x) ==
  LET c == CTay(p, x) s == RDiv(CAbs1(c[2]), "3/2")
  IN  /\ RLt(0, s)
      /\ LET b == RDiv(CAbs1(c[1]), s) IN \A k \in 3..Len(p) : RLe(RMul(CAbs1(c[k]), RPow(b, k - 2)), RMul(s, RPow("1/1000", k - 2)))
COpenOK(e) ==
  LET nz(z) == RMul(RMul(8 * (Len(e.p) + 2), U), CMajor(e.p, z))
  IN  /\ ~e.loop
      /\ IF e.err = 0 THEN CIsNum(e.r) /\ RLe(CMod2(CVal(e.p, e.r)), RSq(RAdd(RMul(e.tol, RAdd(1, U)), nz(e.r))))
         ELSE e.r[1] = "nan" /\ e.r[2] = "nan" /\ ~(e.max >= 6 /\ CClose(e.p, e.guess) /\ RLe(RMul(1000, nz(CScal(2, e.guess))), e.tol) /\ RLe(RMul(CAbs1(CVal(e.p, e.guess)), "1e-15"), e.tol))

(************************** several variables ******************************)
\* row i of the linear part: a term is <<c, 0, q1..qn>>
Lin(e, i, j) == RSum([k \in 1..Len(e.g[i]) |-> IF (\A m \in 1..Len(e.x) : e.g[i][k][2 + m] = (IF m = j THEN 1 ELSE 0)) THEN e.g[i][k][1] ELSE "0"])
Linear(e) == \A i \in 1..Len(e.g) : \A k \in 1..Len(e.g[i]) : RLe(RSum([m \in 1..Len(e.x) |-> e.g[i][k][2 + m]]), 1)
Dominant(e) == \A i \in 1..Len(e.x) : RLt(RMul(2, RSum([j \in 1..Len(e.x) |-> IF j = i THEN 0 ELSE RAbs(Lin(e, i, j))])), RAbs(Lin(e, i, i)))
MultiOK(e) ==
  IF e.err = 0
  THEN /\ Len(e.r) = Len(e.x) /\ \A i \in 1..Len(e.r) : RIsNum(e.r[i])
       /\ LET v == F(e.g, "0", e.r) m == F(GAbs(e.g), "0", VAbs(e.r))
          IN  RLe(RSum([i \in 1..Len(v) |-> RSq(RMax(0, RSub(RAbs(v[i]), RMul(RMul(60, U), m[i]))))]), RMul(RSq(e.tol), "1.000001"))
  ELSE Len(e.r) = Len(e.x) /\ (\A i \in 1..Len(e.r) : e.r[i] = "nan") /\ ~(Linear(e) /\ Dominant(e) /\ e.max >= 3)

(******************************* sweeps ************************************)
Nd(e, k) == RAdd(e.a, RMul(k, RDiv(RSub(e.b, e.a), e.n)))
\* the value seen at node k, the earliest call next to it
NodeVals(e) == LET w == Wid(e)
                   V(k) == LET S == {i \in 1..Len(e.calls) : RLe(RAbs(RSub(e.calls[i][1], Nd(e, k))), w)}
                           IN  IF S = {} THEN "none" ELSE e.calls[CHOOSE i \in S : \A j \in S : i <= j][2]
               IN  Eager([k \in 1..(e.n + 1) |-> V(k - 1)])
IvalsOK(e) ==
  IF e.n = 0 THEN e.r = <<>>
  ELSE LET v == NodeVals(e)
           w == Wid(e)
           flag == SelectSeq([k \in 1..e.n |-> k], LAMBDA k : Sg(v[k]) * Sg(v[k + 1]) <= 0 /\ v[k] # "nan" /\ v[k + 1] # "nan")
       IN  /\ e.err = 0 /\ (\A k \in 1..(e.n + 1) : v[k] # "none")
           /\ Len(e.r) = Len(flag)
           /\ \A i \in 1..Len(flag) : RLe(RAbs(RSub(e.r[i][1], Nd(e, flag[i] - 1))), w) /\ RLe(RAbs(RSub(e.r[i][2], Nd(e, flag[i]))), w)
\* one root for every node that is a root and one for every change of sign between nodes, in order
RootsOK(e) ==
  /\ ~e.loop
  /\ IF e.n = 0 THEN e.err # 0 /\ e.r = <<"nan">>
     ELSE LET v == NodeVals(e)
              w == Wid(e)
              items == SelectSeq([m \in 1..(2 * e.n + 1) |-> m], LAMBDA m : IF m % 2 = 1 THEN Sg(v[(m + 1) \div 2]) = 0 ELSE Sg(v[m \div 2]) * Sg(v[m \div 2 + 1]) < 0)
          IN  /\ e.err = 0 /\ (\A k \in 1..(e.n + 1) : v[k] # "none")
              /\ Len(e.r) = Len(items)
              /\ \A i \in 1..Len(items) :
                   IF items[i] % 2 = 1 THEN RLe(RAbs(RSub(e.r[i], Nd(e, (items[i] - 1) \div 2))), w)
                   ELSE InSeg(e.r[i], Nd(e, items[i] \div 2 - 1), Nd(e, items[i] \div 2), w) /\ Change(e.calls, e.r[i], e.tol, w)
(* polynomials: e.z are its roots, rational and simple, increasing *)
PolyOK(e) == /\ e.err = 0 /\ Len(e.r) = Len(e.z)
             /\ \A i \in 1..Len(e.z) : Near(e.r[i], e.z[i], RAdd(RMul(2, e.tol), "1e-9"))

R0 == 0
RStep(s, e) ==
  CASE e.op = "bracket" -> BracketOK(e)
    [] e.op = "open" -> OpenOK(e)
    [] e.op = "order" -> OrderOK(e)
    [] e.op = "copen" -> COpenOK(e)
    [] e.op = "multi" -> MultiOK(e)
    [] e.op = "ivals" -> IvalsOK(e)
    [] e.op = "roots" -> RootsOK(e)
    [] e.op = "proots" -> PolyOK(e)
RNext(s, e) == s
=============================================================================
