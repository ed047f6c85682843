----------------------------- MODULE DistModel ------------------------------
(* The metric laws of the definitions, for all triples of vectors on a grid, *)
(* and that the acceptance predicates refuse anything but the exact value.   *)
EXTENDS Dist
CONSTANTS N, Grid
VARIABLES a, b, c
G == {0, 1, -2}
Init == a \in [1..N -> Grid] /\ b \in [1..N -> Grid] /\ c \in [1..N -> Grid]
Next == FALSE /\ UNCHANGED <<a, b, c>>
D1(v, w) == N1(Diff(v, w))
D2(v, w) == SqrtE(N2Sq(Diff(v, w)))
D3(v, w) == NpP(Diff(v, w), 3)
DI(v, w) == NInf(Diff(v, w))
DH(v, w) == Cardinal(Far(v, w, 0))
Cbrt(x) == IF REq(x, 0) THEN Pt("0") ELSE PowE(x, "1/3")
CubeRootLe(x, y, z) == RLe(Cbrt(x)[1], RAdd(Cbrt(y)[2], Cbrt(z)[2]))
Metric(D(_, _)) == /\ RLe(0, D(a, b)) /\ (REq(D(a, b), 0) <=> a = b) /\ REq(D(a, b), D(b, a))
                   /\ RLe(D(a, c), RAdd(D(a, b), D(b, c)))
Laws ==
  /\ Metric(D1) /\ Metric(DI) /\ Metric(DH) /\ Metric(Canb)
  /\ REq(D2(a, b)[1], D2(b, a)[1]) /\ (REq(D2(a, b)[2], 0) <=> a = b) /\ RLe(D2(a, c)[1], RAdd(D2(a, b)[2], D2(b, c)[2]))
  /\ CubeRootLe(D3(a, c), D3(a, b), D3(b, c))
  /\ RLe(DI(a, b), D2(a, b)[2]) /\ RLe(D2(a, b)[1], D1(a, b)) /\ RLe(D1(a, b), RMul(N, DI(a, b)))     \* ordering of the norms
  /\ (N2Sq(a) # "0" /\ N2Sq(b) # "0") => LET e == Cosine(a, b) IN RLe("-1e-30", e[1]) /\ RLe(e[2], RAdd(2, "1e-30"))
=============================================================================
