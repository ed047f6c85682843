------------------------------ MODULE VectModel -----------------------------
(***************************************************************************)
(* Laws of the vector operators of Vect.tla for all vectors of a small     *)
(* grid, and (simulated) generation of operation histories.                *)
(***************************************************************************)
EXTENDS Vect, IOUtils
CONSTANTS Grid, Dim, MaxOps
VARIABLES u, v, w
G3 == {-2, 0, 1}
Vecs == [1..Dim -> Grid]
LawInit == u \in Vecs /\ v \in Vecs /\ w \in Vecs
LawNext == FALSE /\ UNCHANGED <<u, v, w>>
Laws ==
  /\ VAdd(u, v) = VAdd(v, u) /\ VAdd(VAdd(u, v), w) = VAdd(u, VAdd(v, w)) /\ SameV(VSub(VAdd(u, v), v), u)
  /\ SameV(VMul(3, VAdd(u, v)), VAdd(VMul(3, u), VMul(3, v))) /\ VNeg(VSub(u, v)) = VSub(v, u)
  /\ RDot(u, v) = RDot(v, u) /\ RDot(VAdd(u, v), w) = RAdd(RDot(u, w), RDot(v, w))
  /\ RLe(RSq(RDot(u, v)), RMul(RDot(u, u), RDot(v, v)))
  /\ Dim = 3 => /\ RDot(Cross(u, v), u) = "0" /\ Cross(u, v) = VNeg(Cross(v, u))
                /\ RAdd(RDot(Cross(u, v), Cross(u, v)), RSq(RDot(u, v))) = RMul(RDot(u, u), RDot(v, v))
                /\ VAdd(VAdd(Cross(u, Cross(v, w)), Cross(v, Cross(w, u))), Cross(w, Cross(u, v))) = <<"0", "0", "0">>

\* histories: u is the list of tokens so far, v the number of operations, w the kind and dimension
Nums == {"1", "-2", "0.5", "3", "-0.25", "7", "0.1", "1e10"}
R == {"a", "b", "c"}
GenInit == /\ w \in [kind : {"fix", "dyn"}, n : 1..6] /\ v = 0
           /\ u = <<"new", w.kind, w.n, ";">>
Pick(S) == {RandomElement(S)}
Cmd(t) == u' = u \o t \o <<";">>
GenNext ==
  /\ v < MaxOps /\ v' = v + 1 /\ w' = w
  /\ \E t \in Pick(R), p \in Pick(R), q \in Pick(R), x \in Pick(Nums), i \in Pick(0..(w.n - 1)) :
     \/ \E o \in {"add", "sub", "vsum3", "vdiff3"} : Cmd(<<o, t, p, q>>)
     \/ \E o \in {"iadd", "isub", "vsum2", "vdiff2", "neg", "pos", "copy", "normalized"} : Cmd(<<o, t, p>>)
     \/ \E o \in {"smul", "sdiv", "vscal3"} : Cmd(<<o, t, p, x>>)
     \/ \E o \in {"imul", "idiv", "vscal2"} : Cmd(<<o, t, x>>)
     \/ \E h \in {"idx", "at", "set"} : Cmd(<<"set", t, i, x, h>>)
     \/ Cmd(<<"fill", t, w.n, x>>) \/ Cmd(<<"base", t, i, w.n>>) \/ Cmd(<<"normalize", t>>)
     \/ \E o \in {"dot", "eq"} : Cmd(<<o, p, q>>)
     \/ \E o \in {"norm", "sqrnorm", "iter", "print", "size"} : Cmd(<<o, p>>)
     \/ Cmd(<<"set", "w", i, x, "idx">>) \/ Cmd(<<"copy", "w", p>>) \/ Cmd(<<"copy", t, "w">>) \/ Cmd(<<"dot", p, "w">>) \/ Cmd(<<"eq", p, "w">>)
GenDone == v = MaxOps => Emit(IOEnv.OUT, u)
=============================================================================
