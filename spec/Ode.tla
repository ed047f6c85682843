-------------------------------- MODULE Ode ---------------------------------
(***************************************************************************)
(* Ordinary differential equations x' = f(t, x) with polynomial right-hand *)
(* sides.  A right-hand side has one sequence of terms per variable; a     *)
(* term is <<c, p, q1, ..., qn>>, standing for c t^p x1^q1 ... xn^qn.      *)
(*                                                                         *)
(* A one-step method is a Butcher tableau, a multi-step method a sequence  *)
(* of weights.  The state of the machine is the point (t, x) reached; a    *)
(* step is the exact rational application of the method to that point.     *)
(***************************************************************************)
EXTENDS Cplx

Pw(x, n) == IF n = 0 THEN "1" ELSE RPow(x, n)
TermV(m, t, x) == LET f[i \in 0..Len(x)] == IF i = 0 THEN RMul(m[1], Pw(t, m[2])) ELSE RMul(f[i - 1], Pw(x[i], m[2 + i])) IN f[Len(x)]
F(g, t, x) == Eager([i \in 1..Len(x) |-> RSum([k \in 1..Len(g[i]) |-> TermV(g[i][k], t, x)])])
\* the same with absolute values everywhere
GAbs(g) == [i \in 1..Len(g) |-> [k \in 1..Len(g[i]) |-> [j \in 1..Len(g[i][k]) |-> IF j = 1 THEN RAbs(g[i][k][1]) ELSE g[i][k][j]]]]
VAbs(x) == [i \in 1..Len(x) |-> RAbs(x[i])]

(* tableaux: nodes c, rows of a (strictly lower triangle), weights b, order p *)
Tab(m) ==
  CASE m = "euler" -> [c |-> <<"0">>, a |-> <<<<>>>>, b |-> <<"1">>, p |-> 1]
    [] m \in {"midpoint", "rk2"} -> [c |-> <<"0", "1/2">>, a |-> <<<<>>, <<"1/2">>>>, b |-> <<"0", "1">>, p |-> 2]
    [] m = "heun" -> [c |-> <<"0", "1">>, a |-> <<<<>>, <<"1">>>>, b |-> <<"1/2", "1/2">>, p |-> 2]
    [] m = "rk4" -> [c |-> <<"0", "1/2", "1/2", "1">>, a |-> <<<<>>, <<"1/2">>, <<"0", "1/2">>, <<"0", "0", "1">>>>,
                     b |-> <<"1/6", "1/3", "1/3", "1/6">>, p |-> 4]
    [] m = "k38" -> [c |-> <<"0", "1/3", "2/3", "1">>, a |-> <<<<>>, <<"1/3">>, <<"-1/3", "1">>, <<"1", "-1", "1">>>>,
                     b |-> <<"1/8", "3/8", "3/8", "1/8">>, p |-> 4]
OneStep == {"euler", "midpoint", "rk2", "heun", "rk4", "k38"}
\* weights of the derivatives, oldest first
Adams(m) == CASE m = "adams2" -> <<"-1/2", "3/2">> [] m = "adams3" -> <<"5/12", "-4/3", "23/12">>

Axpy(x, h, w, K) == Eager([i \in 1..Len(x) |-> RAdd(x[i], RMul(h, RSum([j \in 1..Len(w) |-> RMul(w[j], K[j][i])])))])
Stages(T, g, t, x, h) ==
  LET f[s \in 0..Len(T.b)] ==
        IF s = 0 THEN <<>>
        ELSE LET K == Eager(f[s - 1]) IN Append(K, F(g, RAdd(t, RMul(T.c[s], h)), Axpy(x, h, T.a[s], K)))
  IN  Eager(f[Len(T.b)])
StepT(T, g, t, x, h) == Axpy(x, h, T.b, Stages(T, g, t, x, h))
Step1(m, g, t, x, h) == StepT(Tab(m), g, t, x, h)
TAbs(T) == [c |-> T.c, a |-> [i \in 1..Len(T.a) |-> VAbs(T.a[i])], b |-> VAbs(T.b), p |-> T.p]
\* a bound of every intermediate quantity
Maj1(m, g, t, x, h) == StepT(TAbs(Tab(m)), GAbs(g), RAbs(t), VAbs(x), RAbs(h))
StepM(w, g, ts, xs, h) == Axpy(xs[Len(w)], h, w, [j \in 1..Len(w) |-> F(g, ts[j], xs[j])])
MajM(w, g, ts, xs, h) == StepM(VAbs(w), GAbs(g), [j \in 1..Len(ts) |-> RAbs(ts[j])], [j \in 1..Len(xs) |-> VAbs(xs[j])], RAbs(h))

OK(r, x, maj) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : RLt("1e200", maj[i]) \/ Near(r[i], x[i], RMul(RMul(600, U), RMax(maj[i], "1e-250")))

(* The time grid: n full steps of size h, then a last one that is not longer *)
LOCAL Grid(ts, t0, tf, h) ==
  LET N == Len(ts) - 1
      tol == RMul(RMul(2 * (N + 4), U), RMax(RAbs(t0), RAbs(tf)))
  IN  /\ Len(ts) >= 1 /\ REq(ts[1], t0)
      /\ \A i \in 1..(N + 1) : RIsNum(ts[i])
      /\ \A i \in 2..N : Near(ts[i], RAdd(t0, RMul(i - 1, h)), tol)
      /\ Near(ts[N + 1], tf, tol)
      /\ N >= 1 => /\ RLe(tf, RAdd(RAdd(ts[N], h), tol))
                   /\ RLe(ts[N], RAdd(tf, tol))
GridOK(ts, t0, tf, h) == Grid(ts, t0, tf, h)

(* The machine: s is the set-up of the integration and the last point.  An
   integration is the event "solve", followed by one event "point" per
   entry of the solution; "step" and "multi" are single applications. *)
Idle == [m |-> "none"]
O0 == Idle
OStep(s, e) ==
  CASE e.op = "step" -> e.err = 0 /\ OK(e.r, Step1(e.m, e.g, e.t, e.x, e.h), Maj1(e.m, e.g, e.t, e.x, e.h))
    [] e.op = "multi" -> LET w == Adams(e.m) IN e.err = 0 /\ OK(e.r, StepM(w, e.g, e.ts, e.xs, e.h), MajM(w, e.g, e.ts, e.xs, e.h))
    [] e.op = "solve" -> /\ IF RLt(e.tf, e.t0) \/ ~RIsNum(e.h) \/ RLe(e.h, 0) THEN e.err # 0 /\ e.n = e.nx /\ (\A i \in 1..Len(e.ts) : e.ts[i] = "nan")
                            ELSE e.err = 0 /\ e.n = e.nx /\ e.n = Len(e.ts) /\ GridOK(e.ts, e.t0, e.tf, e.h)
    [] e.op = "point" -> /\ s.m # "none" /\ e.i = s.i + 1 /\ e.t = s.ts[e.i]
                         /\ IF e.i = 1 THEN Len(e.x) = Len(s.x) /\ \A k \in 1..Len(e.x) : REq(e.x[k], s.x[k])
                            \* after an overflow nothing is promised
                            ELSE (\E k \in 1..Len(s.x) : ~RIsNum(s.x[k]) \/ RLt("1e60", RAbs(s.x[k]))) \/ LET h == RSub(e.t, s.t) IN OK(e.x, Step1(s.m, s.g, s.t, s.x, h),
                                    \* the step taken is the difference of the times up to their rounding
                                    LET d == Maj1(s.m, s.g, s.t, s.x, h) IN [k \in 1..Len(d) |-> RMul(d[k], RAdd(1, RDiv(RMul(RAdd(RAbs(s.t), RAbs(e.t)), "1/64"), RMax(RAbs(h), "1e-300"))))])
ONext(s, e) ==
  CASE e.op = "solve" -> IF e.err = 0 THEN [m |-> e.m, g |-> e.g, ts |-> e.ts, x |-> e.x0, t |-> e.t0, i |-> 0] ELSE Idle
    [] e.op = "point" -> [s EXCEPT !.x = e.x, !.t = e.t, !.i = e.i]
    [] OTHER -> s
=============================================================================
