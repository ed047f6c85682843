---------------------------- MODULE LinSysModel -----------------------------
(***************************************************************************)
(* Laws of the exact elimination over every matrix of a small grid, and    *)
(* the matrices themselves as behaviours to replay.                        *)
(***************************************************************************)
EXTENDS LinSys, IOUtils
CONSTANTS Grid, N, Cmds
VARIABLE m
G2 == {-1, 0, 2}
G3 == {0, 1}
GX == {-1, 0, 1}
Cm == {"solve", "det", "inv", "lu"}
\* a fixed mixing of the grid element number, so that the generators need no randomness
Init == m \in [1..N -> [1..N -> Grid]]
Next == FALSE /\ m' = m
Leibniz3(a) == RSub(RAdd(RAdd(RProd(<<a[1][1], a[2][2], a[3][3]>>), RProd(<<a[1][2], a[2][3], a[3][1]>>)), RProd(<<a[1][3], a[2][1], a[3][2]>>)),
                    RAdd(RAdd(RProd(<<a[1][3], a[2][2], a[3][1]>>), RProd(<<a[1][2], a[2][1], a[3][3]>>)), RProd(<<a[1][1], a[2][3], a[3][2]>>)))
Q == IF N = 2 THEN <<<<2, 1>>, <<-1, 3>>>> ELSE <<<<2, 1, 0>>, <<-1, 3, 1>>, <<1, 1, -2>>>>
Laws ==
  /\ N = 2 => REq(Det(m), RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1])))
  /\ N = 3 => REq(Det(m), Leibniz3(m))
  /\ REq(Det(MMul(m, Q)), RMul(Det(m), Det(Q))) /\ REq(Det(Tr(m)), Det(m))
  /\ ~REq(Det(m), 0) => /\ SameM(MMul(m, Inverse(m)), MDiag(N, N, "1")) /\ SameM(MMul(Inverse(m), m), MDiag(N, N, "1"))
                        /\ RLe(1, Cond(m))
  /\ Blatant(m) => REq(Det(m), 0)
  /\ LET p == Pivots(m) IN (\A k \in 1..N : RIsNum(p[k])) => REq(RProd(p), Det(m))
  /\ ~REq(Det(m), 0) => LET x == MV(Inverse(m), [i \in 1..N |-> i]) IN SolveOK([a |-> m, b |-> [i \in 1..N |-> i], x |-> x, err |-> 0])
Toks == LET f[i \in 0..N] == IF i = 0 THEN <<>> ELSE f[i - 1] \o [j \in 1..N |-> m[i][j]] IN f[N]
Gen == \A h \in {"fix", "dyn"} : Emit(IOEnv.OUT, <<h, N, N>> \o Toks)
=============================================================================
