---------------------------- MODULE InterpModel -----------------------------
(***************************************************************************)
(* Two machines.  De Casteljau: a row of points shrinks by linear          *)
(* interpolation of neighbours; at every step the row stays in the hull    *)
(* and the curve it defines is unchanged, so the last point is the Bezier  *)
(* curve.  Elimination: the tridiagonal system of the natural spline is    *)
(* eliminated row by row on every small node set; the resulting nodes      *)
(* satisfy the conditions of the specification, and nodes with one second  *)
(* derivative changed do not.                                              *)
(***************************************************************************)
EXTENDS Interp
VARIABLES mode, row, ctl, t, x, y, k, be, ga
vars == <<mode, row, ctl, t, x, y, k, be, ga>>
Vals == {"-1", "0", "2"}
Init == \/ /\ mode = "bez" /\ ctl \in UNION {[1..n -> Vals] : n \in 2..4} /\ row = ctl /\ t \in {"0", "1/4", "1/2", "1", "-1/2", "3/2"}
           /\ x = <<>> /\ y = <<>> /\ k = 0 /\ be = <<>> /\ ga = <<>>
        \/ /\ mode = "spl" /\ row = <<>> /\ ctl = <<>> /\ t = "0"
           /\ \E n \in 2..4 : \E g \in [1..(n - 1) -> {"1", "1/3", "5"}] :
                /\ x = [i \in 1..n |-> RSum([j \in 1..(i - 1) |-> g[j]])]
                /\ y \in {v \in [1..n -> {"0", "1", "-2"}] : n <= 4 \/ REq(v[1], 0)}
           /\ k = 1 /\ be = <<"0">> /\ ga = <<"0">>
Cast == /\ mode = "bez" /\ Len(row) > 1
        /\ row' = [i \in 1..(Len(row) - 1) |-> Lerp(row[i], row[i + 1], t)]
        /\ UNCHANGED <<mode, ctl, t, x, y, k, be, ga>>
n1 == Len(x) - 1
h(i) == RSub(x[i + 1], x[i])
\* row i (2..n1) of the system: h(i-1) c(i-1) + 2 (h(i-1) + h(i)) c(i) + h(i) c(i+1) = delta(i)
Delta(i) == RMul(3, RSub(RDiv(RSub(y[i + 1], y[i]), h(i)), RDiv(RSub(y[i], y[i - 1]), h(i - 1))))
Elim == /\ mode = "spl" /\ k < n1
        /\ LET i == k + 1 al == RSub(RMul(2, RSub(x[i + 1], x[i - 1])), RMul(h(i - 1), be[i - 1]))
           IN  /\ be' = Append(be, RDiv(h(i), al))
               /\ ga' = Append(ga, RDiv(RSub(Delta(i), RMul(h(i - 1), ga[i - 1])), al))
        /\ k' = k + 1 /\ UNCHANGED <<mode, row, ctl, t, x, y>>
Next == Cast \/ Elim
CC == LET f[j \in 1..(n1 + 1)] == IF j = 1 THEN "0" ELSE LET i == n1 + 2 - j IN RSub(ga[i], RMul(be[i], Eager(f[j - 1]))) IN Eager([i \in 1..(n1 + 1) |-> f[n1 + 2 - i]])
NodesOf(c) == [i \in 1..n1 |-> <<x[i], y[i], RSub(RDiv(RSub(y[i + 1], y[i]), h(i)), RDiv(RMul(h(i), RAdd(c[i + 1], RMul(2, c[i]))), 3)), c[i], RDiv(RSub(c[i + 1], c[i]), RMul(3, h(i)))>>]
\* rows of the partially eliminated system still determine the same unknowns
Pivot == mode = "spl" => \A i \in 1..Len(be) : RLe(0, be[i]) /\ RLe(RMul(2, be[i]), 1) 
Natural == (mode = "spl" /\ k = n1) => SplineOK(x, y, NodesOf(CC))
Unique == (mode = "spl" /\ k = n1) => \A i \in 1..(n1 + 1) : ~SplineOK(x, y, NodesOf([CC EXCEPT ![i] = RAdd(CC[i], "1e-6")]))
P1(s) == [i \in 1..Len(s) |-> <<s[i]>>]
Curve == mode = "bez" => REq(Bezier(P1(row), t, 1), Bezier(P1(ctl), t, 1))
Hull == (mode = "bez" /\ RLe(0, t) /\ RLe(t, 1)) => \A i \in 1..Len(row) : \E a, b \in 1..Len(ctl) : Between(row[i], ctl[a], ctl[b], 0)
Last == (mode = "bez" /\ Len(row) = 1) => LET e == [op |-> "bezier", m |-> "quad", P |-> P1(ctl), t |-> t, err |-> 0, r |-> row]
                                          IN  BezierOK(e) /\ ~BezierOK([e EXCEPT !.r = <<RAdd(row[1], "1e-10")>>])
Unity == mode = "bez" => REq(RSum([i \in 1..Len(ctl) |-> Bern(Len(ctl) - 1, i - 1, t)]), 1)
=============================================================================
