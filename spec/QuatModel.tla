----------------------------- MODULE QuatModel ------------------------------
(* Hamilton's algebra: associative, distributive, norms multiply, inverses,  *)
(* basis products; q v q^-1 is Rodrigues' rotation at rational angles.       *)
EXTENDS Quat
VARIABLES p, q, v
G == {<<"1", "0", "0", "0">>, <<"0", "1", "0", "0">>, <<"0", "0", "1", "0">>, <<"0", "0", "0", "1">>, <<"1", "-2", "1/2", "3">>, <<"-1", "1", "1", "1">>, <<"0", "3", "-4", "1/3">>}
\* <<cos th/2, sin th/2>> on the unit circle and unit axes with rational coordinates
Half == {<<"1", "0">>, <<"3/5", "4/5">>, <<"-5/13", "12/13">>}
Axes == {<<"1", "0", "0">>, <<"2/3", "-1/3", "2/3">>, <<"2/7", "3/7", "-6/7">>}
V == {<<"1", "0", "0">>, <<"0", "1", "0">>, <<"1", "-2", "1/2">>}
Init == p \in G /\ q \in G /\ v \in V
Next == FALSE /\ UNCHANGED <<p, q, v>>
E(i) == [j \in 1..4 |-> IF i = j THEN "1" ELSE "0"]
Eq(a, b) == \A i \in 1..4 : REq(a[i], b[i])
r0 == <<"2", "1/3", "-1", "5">>
Laws ==
  /\ Eq(QMul(QMul(p, q), r0), QMul(p, QMul(q, r0)))
  /\ Eq(QMul(p, QAdd(q, r0)), QAdd(QMul(p, q), QMul(p, r0)))
  /\ REq(QN2(QMul(p, q)), RMul(QN2(p), QN2(q)))
  /\ Eq(QMul(p, QInv(p)), E(1)) /\ Eq(QMul(QDiv(p, q), q), p)
  /\ Eq(QConj(QMul(p, q)), QMul(QConj(q), QConj(p)))
  /\ Eq(QMul(E(2), E(3)), E(4)) /\ Eq(QMul(E(3), E(4)), E(2)) /\ Eq(QMul(E(4), E(2)), E(3)) /\ Eq(QMul(E(3), E(2)), QNeg(E(4)))
  /\ \A i \in 2..4 : Eq(QMul(E(i), E(i)), QNeg(E(1)))
  /\ LET w == QRot(p, v) u == QRot(q, w) x == QRot(QMul(q, p), v) IN
       REq(RDot(w, w), RDot(v, v)) /\ \A i \in 1..3 : REq(u[i], x[i])       \* isometry, composition
  /\ \A h \in Half : \A a \in Axes :
       LET w == QRot(<<h[1], RMul(h[2], a[1]), RMul(h[2], a[2]), RMul(h[2], a[3])>>, v)
           c == RSub(RSq(h[1]), RSq(h[2])) s == RMul(2, RMul(h[1], h[2])) IN
         \A i \in 1..3 : IContains(Rodr(v, a, Pt(c), Pt(s))[i], w[i])
=============================================================================
