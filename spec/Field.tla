------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Differential operators on expressions.  An expression is a program in   *)
(* postfix form,                                                           *)
(*   [o |-> "v", i]      the i-th variable                                 *)
(*   [o |-> "c", x]      the constant x                                    *)
(*   [o |-> "b", f]      an operator on the two topmost values             *)
(*   [o |-> "k", f, x]   value f x        [o |-> "r", f, x]   x f value    *)
(*   [o |-> "u", f, n]   a function                                        *)
(* evaluated on jets: with the variables seeded by the unit vectors, the   *)
(* derivative parts are the exact partial derivatives of the expression.   *)
(***************************************************************************)
EXTENDS Jet

Run(prog, vars) ==
  LET Push(st, x) == Append(st, x)
      Top(st) == st[Len(st)]
      Pop(st) == SubSeq(st, 1, Len(st) - 1)
      f[i \in 0..Len(prog)] ==
        IF i = 0 THEN <<>>
        ELSE LET st == Eager(f[i - 1])
                 t == prog[i]
             IN  CASE t.o = "v" -> Push(st, vars[t.i])
                   [] t.o = "c" -> Push(st, JConst(t.x, vars[1]))
                   [] t.o = "b" -> Push(Pop(Pop(st)), Arith(t.f, Top(Pop(st)), Top(st)))
                   [] t.o = "k" -> Push(Pop(st), Arith(t.f, Top(st), JConst(t.x, vars[1])))
                   [] t.o = "r" -> Push(Pop(st), Arith(t.f, JConst(t.x, vars[1]), Top(st)))
                   [] t.o = "u" -> Push(Pop(st), One1(t.f, t.n, Top(st)))
  IN  Top(Eager(f[Len(prog)]))

Unit(i, n) == [j \in 1..n |-> Pt(IF i = j THEN "1" ELSE "0")]
Seed(x) == [i \in 1..Len(x) |-> Num(Pt(x[i]), Unit(i, Len(x)), <<>>)]
\* second order in direction k only
Seed2(x, k) == [i \in 1..Len(x) |-> Num(Pt(x[i]), <<Pt(IF i = k THEN "1" ELSE "0")>>, <<Pt("0")>>)]
Grad(prog, x) == Eager(Run(prog, Seed(x)))
\* sums of n terms
ISum(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN Pt("0") ELSE IAdd(Eager(f[i - 1]), s[i]) IN Eager(f[Len(s)])
SumI(s) == Infl(ISum(s), Len(s) + 1, RSum([i \in 1..Len(s) |-> IAbsMax(s[i])]))
AllNum(s) == \A i \in 1..Len(s) : s[i].k = "num"
InV(r, s) == Len(r) = Len(s) /\ \A i \in 1..Len(s) : InI(r[i], s[i])
AllNan(r) == \A i \in 1..Len(r) : r[i] = "nan"
DotI(v, g) == SumI([i \in 1..Len(v) |-> IScale(v[i], g[i])])

(* The machine has no state: every operator is a function of the expression and the point. *)
L0 == 0
LStep(s, e) ==
  CASE e.op = "grad" -> LET g == Grad(e.p, e.x) IN g.k # "num" \/ (e.err = 0 /\ InV(e.r, g.b) /\ e.r2 = e.r)
    [] e.op = "div" -> LET g == Grad(e.p, e.x) IN g.k # "num" \/ (e.err = 0 /\ InI(e.r, SumI(g.b)) /\ e.r2 = e.r)
    [] e.op = "jac" -> LET J == [i \in 1..Len(e.ps) |-> Grad(e.ps[i], e.x)]
                       IN  ~AllNum(J) \/ (e.err = 0 /\ Len(e.r) = Len(J) /\ (\A i \in 1..Len(J) : InV(e.r[i], J[i].b)) /\ e.r2 = e.r)
    [] e.op = "curl" -> IF Len(e.x) # 3 THEN e.err # 0 /\ Len(e.r) >= 1 /\ AllNan(e.r)
                        ELSE LET J == [i \in 1..3 |-> Grad(e.ps[i], e.x)]
                                 D(i, j) == Infl(ISub(J[i].b[j], J[j].b[i]), 2, RAdd(IAbsMax(J[i].b[j]), IAbsMax(J[j].b[i])))
                             IN  ~AllNum(J) \/ (e.err = 0 /\ InV(e.r, <<D(3, 2), D(1, 3), D(2, 1)>>) /\ e.r2 = e.r)
    [] e.op = "dir" -> LET g == Grad(e.p, e.x)
                           d == DotI(e.v, g.b)
                       IN  g.k # "num" \/ (e.err = 0 /\ InV(e.r, [i \in 1..Len(e.v) |-> Rnd(IScale(e.v[i], d), 2)]) /\ e.r2 = e.r)
    [] e.op = "lap" -> LET H == [k \in 1..Len(e.x) |-> Eager(Run(e.p, Seed2(e.x, k)))]
                       IN  ~AllNum(H) \/ (e.err = 0 /\ InI(e.r, SumI([k \in 1..Len(H) |-> H[k].c[1]])) /\ e.r2 = e.r)
    \* the bracket of f with the Hamiltonian: the first half of the variables are the coordinates
    [] e.op = "bracket" -> LET f == Grad(e.p, e.x) h == Grad(e.h, e.x) K == Len(e.x) \div 2
                               T(i) == ISub(IMul(f.b[i], h.b[K + i]), IMul(f.b[K + i], h.b[i]))
                               A(i) == RAdd(T2(f.b[i], h.b[K + i]), T2(f.b[K + i], h.b[i]))
                           IN  f.k # "num" \/ h.k # "num"
                               \/ (e.err = 0 /\ InI(e.r, Infl(ISum([i \in 1..K |-> T(i)]), 4 * K + 4, RSum([i \in 1..K |-> A(i)]))))
    [] e.op = "deriv" -> LET g == Grad(e.p, e.x) IN g.k # "num" \/ (e.err = 0 /\ InI(e.r, g.b[1]) /\ e.r2 = e.r)
    [] e.op = "deriv2" -> LET g == Eager(Run(e.p, Seed2(e.x, 1))) IN g.k # "num" \/ (e.err = 0 /\ InI(e.r, g.c[1]) /\ e.r2 = e.r)
    [] e.op = "tay1" -> LET g == Grad(e.p, e.x) q == IScale(e.x[1], g.b[1])
                        IN  g.k # "num" \/ (e.err = 0 /\ InV(e.r, <<Infl(ISub(g.a, q), 3, RAdd(IAbsMax(g.a), IAbsMax(q))), Rnd(g.b[1], 2)>>))
    [] e.op = "tay2" -> LET g == Eager(Run(e.p, Seed2(e.x, 1)))
                            x == e.x[1]
                            q == IScale(x, g.b[1]) t == IScale("1/2", g.c[1]) z == IScale(RSq(x), t) u == IScale(x, g.c[1])
                        IN  g.k # "num" \/ (e.err = 0 /\ InV(e.r,
                              <<Infl(IAdd(ISub(g.a, q), z), 6, RAdd(IAbsMax(g.a), RAdd(IAbsMax(q), IAbsMax(z)))),
                                Infl(ISub(g.b[1], u), 6, RAdd(IAbsMax(g.b[1]), IAbsMax(u))), Rnd(t, 3)>>))
    \* arguments: x with the unit vectors; taken apart again
    [] e.op = "arg" -> e.err = 0 /\ e.re = e.x /\ e.ex = e.x
                       /\ Len(e.du) = Len(e.x)
                       /\ \A i \in 1..Len(e.x) : \A j \in 1..Len(e.x) : REq(e.du[i][j], IF i = j THEN 1 ELSE 0) /\ e.ed[i][j] = e.du[i][j] /\ e.ej[i][j] = e.du[i][j]
LNext(s, e) == s
=============================================================================
