----------------------------- MODULE FieldModel -----------------------------
(***************************************************************************)
(* Expressions of two variables grown step by step, next to the polynomial *)
(* in x and y they denote (a matrix of coefficients).  The jets enclose    *)
(* the exact partial derivatives, the Laplacian and the vanishing curl of  *)
(* a gradient.                                                             *)
(***************************************************************************)
EXTENDS Field, FiniteSets
CONSTANT Depth
VARIABLES prog, poly
vars == <<prog, poly>>
\* a polynomial is a function from monomials <<i, j>> to coefficients
Mono == (0..8) \X (0..8)
Mon0(m, c) == [k \in Mono |-> IF k = m THEN c ELSE "0"]
PAdd(p, q) == Eager([k \in Mono |-> RAdd(p[k], q[k])])
PMul(p, q) == Eager([k \in Mono |-> RSum([n \in 1..((k[1] + 1) * (k[2] + 1)) |->
                 LET i == (n - 1) \div (k[2] + 1) j == (n - 1) % (k[2] + 1) IN RMul(p[<<i, j>>], q[<<k[1] - i, k[2] - j>>])])])
PScal(a, p) == [k \in Mono |-> RMul(a, p[k])]
DX(p) == [k \in Mono |-> IF k[1] = 8 THEN "0" ELSE RMul(k[1] + 1, p[<<k[1] + 1, k[2]>>])]
DY(p) == [k \in Mono |-> IF k[2] = 8 THEN "0" ELSE RMul(k[2] + 1, p[<<k[1], k[2] + 1>>])]
Val(p, x) == RSum([n \in 1..81 |-> LET k == <<(n - 1) \div 9, (n - 1) % 9>> IN IF p[k] = "0" THEN "0" ELSE RMul(p[k], RMul(RPow(x[1], k[1]), RPow(x[2], k[2])))])
LowDeg(p) == \A k \in Mono : k[1] + k[2] > 4 => p[k] = "0"
PV(i) == Mon0(IF i = 1 THEN <<1, 0>> ELSE <<0, 1>>, "1")
Init == \E i \in 1..2 : prog = <<[o |-> "v", i |-> i]>> /\ poly = PV(i)
Grow(t, p) == prog' = prog \o t /\ poly' = p
Next == /\ Len(prog) < Depth /\ LowDeg(poly)
        /\ \/ \E i \in 1..2 : Grow(<<[o |-> "v", i |-> i], [o |-> "b", f |-> "*"]>>, PMul(poly, PV(i)))
           \/ \E i \in 1..2 : Grow(<<[o |-> "v", i |-> i], [o |-> "b", f |-> "+"]>>, PAdd(poly, PV(i)))
           \/ Grow(<<[o |-> "r", f |-> "-", x |-> "3"]>>, PAdd(Mon0(<<0, 0>>, "3"), PScal(-1, poly)))
           \/ Grow(<<[o |-> "k", f |-> "/", x |-> "2"]>>, PScal("1/2", poly))
           \/ Grow(<<[o |-> "u", f |-> "square", n |-> 0]>>, PMul(poly, poly))
           \/ Grow(<<[o |-> "c", x |-> "5"], [o |-> "b", f |-> "-"]>>, PAdd(poly, Mon0(<<0, 0>>, "-5")))
Points == {<<"0", "0">>, <<"1", "-2">>, <<"1/2", "3">>}
Exact == \A x \in Points :
  LET g == Grad(prog, x)
      h(k) == Run(prog, Seed2(x, k))
  IN  /\ InI(Val(poly, x), g.a) /\ InI(Val(DX(poly), x), g.b[1]) /\ InI(Val(DY(poly), x), g.b[2])
      /\ InI(Val(DX(DX(poly)), x), h(1).c[1]) /\ InI(Val(DY(DY(poly)), x), h(2).c[1])
      /\ RLe(RSub(g.b[1][2], g.b[1][1]), RMul("1e-10", RAdd(1, IAbsMax(g.b[1]))))
\* the oracle itself is a derivation: partial derivatives commute
Symmetric == LowDeg(poly) => DX(DY(poly)) = DY(DX(poly))
=============================================================================
