------------------------------ MODULE MatrModel -----------------------------
(***************************************************************************)
(* Laws of the matrix operators for all matrices of a small grid, and      *)
(* (simulated) generation of operation histories.                          *)
(***************************************************************************)
EXTENDS Matr, IOUtils
CONSTANTS Grid, MaxOps
VARIABLES u, v, w
G2 == {-1, 2}
G3 == {-1, 0, 2}
M(n, k) == [1..n -> [1..k -> Grid]]
LawInit == u \in M(2, 2) /\ v \in M(2, 3) /\ w \in {<<<<1, -1>>, <<2, 0>>, <<0, 1>>>>, <<<<0, 2>>, <<-1, 1>>, <<1, 1>>>>}
LawNext == FALSE /\ UNCHANGED <<u, v, w>>
Eq(a, b) == SameM(a, b)
Laws ==
  /\ Eq(MMul(MMul(u, v), w), MMul(u, MMul(v, w)))
  /\ Eq(Tr(MMul(u, v)), MMul(Tr(v), Tr(u))) /\ Eq(Tr(Tr(v)), v)
  /\ Eq(MMul(MDiag(2, 2, "1"), v), v) /\ Eq(MMul(v, MDiag(3, 3, "1")), v)
  /\ Eq(MMul(MAdd(u, MDiag(2, 2, "3")), v), MAdd(MMul(u, v), MScal(3, v)))
  /\ Eq(MShift(u, 3), MAdd(u, MDiag(2, 2, "3")))
  /\ REq(RSum(DiagOf(MMul(v, w))), RSum(DiagOf(MMul(w, v))))
  /\ Eq(MSwapRows(v, 1, 2), MMul(<<<<0, 1>>, <<1, 0>>>>, v)) /\ Eq(MSwapCols(MSwapCols(v, 1, 3), 1, 3), v)
  /\ Eq(MResize(MResize(v, 4, 5), 2, 3), v) /\ Eq(MLin(2, v, 0, v), MScal(2, v))

\* histories: u is the list of tokens so far, v the number of operations, w the kind and shape
Nums == {"1", "-2", "0.5", "3", "-0.25", "7", "0.1", "1e10"}
R == {"a", "b", "c", "d", "e"}
GenInit == /\ w \in {[kind |-> k, n |-> 1 + (i \div 4), k |-> 1 + (i % 4)] : k \in {"fix", "dyn"}, i \in 0..15} /\ v = 0
           /\ u = <<"new", w.kind, w.n, w.k, ";">>
Pick(S) == {RandomElement(S)}
Cmd(t) == u' = u \o t \o <<";">>
\* shapes of the registers: a, e: n x k; b: k x n; c: n x n; d: k x k; x: k; y: n
RowsOf(r) == IF r \in {"a", "c", "e"} THEN w.n ELSE w.k
ColsOf(r) == IF r \in {"a", "d", "e"} THEN w.k ELSE w.n
Same == {<<"a", "a", "e">>, <<"e", "a", "a">>, <<"a", "e", "a">>, <<"b", "b", "b">>, <<"c", "c", "c">>, <<"d", "d", "d">>}
Prods == {<<"c", "a", "b">>, <<"d", "b", "a">>, <<"a", "e", "d">>, <<"e", "c", "a">>, <<"b", "d", "b">>, <<"b", "b", "c">>, <<"c", "c", "c">>, <<"d", "d", "d">>, <<"c", "e", "b">>}
Trs == {<<"b", "a">>, <<"a", "b">>, <<"b", "e">>, <<"c", "c">>, <<"d", "d">>}
GenNext ==
  /\ v < MaxOps /\ v' = v + 1 /\ w' = w
  /\ \E t \in Pick(R), x \in Pick(Nums), y \in Pick(Nums), s \in Pick(Same), m \in Pick(Prods), z \in Pick(Trs), h \in Pick(0..3) :
     \E i \in Pick(0..(RowsOf(t) - 1)), j \in Pick(0..(ColsOf(t) - 1)), i2 \in Pick(0..(RowsOf(t) - 1)), j2 \in Pick(0..(ColsOf(t) - 1)) :
     \/ \E o \in {"add", "sub"} : Cmd(<<o, s[1], s[2], s[3], h>>)
     \/ \E o \in {"iadd", "isub"} : Cmd(<<o, s[1], s[2]>>)
     \/ Cmd(<<"lin2", s[1], s[2], x, y>>) \/ Cmd(<<"lin3", s[1], s[2], s[3], x, y>>)
     \/ Cmd(<<"mul", m[1], m[2], m[3], h>>) \/ Cmd(<<"mul", m[1], m[2], m[3], h>>)
     \/ \E q \in Pick({<<"a", "d">>, <<"c", "c">>, <<"b", "c">>, <<"d", "d">>, <<"e", "d">>}) : Cmd(<<"imul", q[1], q[2]>>)
     \/ \E q \in Pick({<<"d", "a", "e">>, <<"c", "b", "b">>}) : Cmd(<<"tmul", q[1], q[2], q[3]>>)
     \/ \E q \in Pick({<<"c", "a", "e">>, <<"d", "b", "b">>}) : Cmd(<<"mult", q[1], q[2], q[3]>>)
     \/ \E o \in Pick({"tr", "herm"}) : Cmd(<<o, z[1], z[2], h>>)
     \/ \E q \in Pick({"c", "d"}), o \in Pick({"itr", "iherm"}) : Cmd(<<o, q>>)
     \/ Cmd(<<"scal", s[1], s[2], x, h>>) \/ Cmd(<<"iscal", t, x, h>>) \/ Cmd(<<"div", s[1], s[2], x>>) \/ Cmd(<<"idiv", t, x>>)
     \/ \E o \in 1..3 : Cmd(<<"set", t, i, j, x, h>>)
     \/ Cmd(<<"elem", t, i, j, h>>)
     \/ Cmd(<<"swr", t, i, i2>>) \/ Cmd(<<"swc", t, j, j2>>) \/ Cmd(<<"shift", t, x>>) \/ Cmd(<<"ident", t>>)
     \/ Cmd(<<"copy", s[1], s[2], h>>) \/ Cmd(<<"copy", "w", t, h>>) \/ Cmd(<<"copy", t, "w", h>>)
     \/ Cmd(<<"iadd", t, "w">>) \/ Cmd(<<"add", t, t, "w", 0>>) \/ Cmd(<<"mul", "w", t, "w", h>>) \/ Cmd(<<"eq", t, "w">>)
     \/ \E q \in Pick({<<"y", "a", "x">>, <<"x", "b", "y">>, <<"y", "c", "y">>, <<"x", "d", "x">>}) : Cmd(<<"mv", q[1], q[2], q[3], h>>)
     \/ \E q \in Pick({<<"x", "y", "a">>, <<"y", "x", "b">>, <<"y", "y", "c">>}) : Cmd(<<"vm", q[1], q[2], q[3]>>)
     \/ \E q \in Pick({<<"c", "y">>, <<"d", "x">>}) : Cmd(<<"apply", q[2], q[1]>>)
     \/ Cmd(<<"eq", s[2], s[3]>>)
     \/ \E o \in Pick({"trace", "dprod", "preds", "dens", "iter", "print", "size"}) : Cmd(<<o, t>>)
GenDone == v = MaxOps => Emit(IOEnv.OUT, u)
=============================================================================
