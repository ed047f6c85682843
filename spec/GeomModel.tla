------------------------------ MODULE GeomModel -----------------------------
(***************************************************************************)
(* Laws of the maps, exactly, at rational points of the circle and the     *)
(* sphere: rotations are orthogonal, proper, fix their axis, compose;      *)
(* projections map the corners of the view volume onto the cube.           *)
(***************************************************************************)
EXTENDS Geom
VARIABLES cs1, cs2, k, box
Circle == {<<"1", "0">>, <<"0", "1">>, <<"3/5", "4/5">>, <<"-5/13", "12/13">>, <<"-8/17", "-15/17">>, <<"20/29", "-21/29">>}
Sphere == {<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>, <<"1/3", "2/3", "2/3">>, <<"-2/7", "3/7", "6/7">>, <<"4/9", "-4/9", "7/9">>}
Boxes == {<<-1, 1, -1, 1, 1, 10>>, <<-2, 3, -1, 5, "1/2", 7>>, <<1, 4, 2, 3, 2, 3>>}
Init == cs1 \in Circle /\ cs2 \in Circle /\ k \in Sphere /\ box \in Boxes
Next == FALSE /\ UNCHANGED <<cs1, cs2, k, box>>
Mid(m) == Mat(Rows(m), Cols(m), LAMBDA i, j : IF REq(m[i][j][1], m[i][j][2]) THEN m[i][j][1] ELSE "nan")
R3(cs) == Mid(Rot3(Pt(cs[1]), Pt(cs[2]), [i \in 1..3 |-> Pt(k[i])]))
R2(cs) == Mid(Rot2(Pt(cs[1]), Pt(cs[2])))
Sum(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[2], b[1]), RMul(a[1], b[2]))>>
I3 == MDiag(3, 3, "1")
Sg(i, b) == (i \div b) % 2
Corner(m, x, y, z) == LET h == MV(m, <<x, y, z, 1>>) IN [i \in 1..3 |-> RDiv(h[i], h[4])]
Laws ==
  /\ SameM(MMul(R3(cs1), Tr(R3(cs1))), I3) /\ REq(Det(R3(cs1)), 1)
  /\ MV(R3(cs1), k) = [i \in 1..3 |-> RCanon(k[i])]
  /\ SameM(MMul(R3(cs1), R3(cs2)), R3(Sum(cs1, cs2)))
  /\ SameM(MMul(R2(cs1), R2(cs2)), R2(Sum(cs1, cs2))) /\ REq(Det(R2(cs1)), 1)
  /\ REq(R2(cs1)[2][1], cs1[2])      \* counter-clockwise: (1, 0) goes to (cos, sin)
  /\ k = <<"0", "0", "1">> => SameM(Minor(R3(cs1), 2), R2(cs1))
  /\ SameM(MMul(Translation(k), Translation(<<1, 2, 3>>)), Translation([i \in 1..3 |-> RAdd(k[i], i)]))
  /\ LET b == box
         per == Persp(b[1], b[2], b[3], b[4], b[5], b[6])
         ort == Ortho(b[1], b[2], b[3], b[4], b[5], b[6])
     IN \A i \in 0..7 :
          LET x == b[1 + Sg(i, 1)] y == b[3 + Sg(i, 2)] z == b[5 + Sg(i, 4)]
              want == <<IF Sg(i, 1) = 0 THEN "-1" ELSE "1", IF Sg(i, 2) = 0 THEN "-1" ELSE "1", IF Sg(i, 4) = 0 THEN "-1" ELSE "1">>
              q == RDiv(z, b[5])
          IN Corner(ort, x, y, RNeg(z)) = want /\ Corner(per, RMul(x, q), RMul(y, q), RNeg(z)) = want
  /\ LET s == Sympl(4) IN SameM(MMul(s, s), MDiag(4, 4, "-1")) /\ SameM(Tr(s), MScal(-1, s))
  /\ LET p == [i \in 1..3 |-> RAdd(k[i], 1)] IN Inversion(Inversion(p, k, "3/2"), k, "3/2") = [i \in 1..3 |-> RCanon(p[i])]
=============================================================================
