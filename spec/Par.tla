-------------------------------- MODULE Par ---------------------------------
(***************************************************************************)
(* Parallel element-wise evaluation.  The state of a call is the number of *)
(* elements, the set of elements whose evaluation has begun and the set of *)
(* those finished.  An element is begun once, by some thread, finished     *)
(* after that by the same thread, and the call returns when all are        *)
(* finished, with the value of each element in its place.  The order is    *)
(* free.  The element-wise functions return what a sequential loop does.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
P0 == [on |-> FALSE, n |-> 0, by |-> <<>>, done |-> {}]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
PStep(s, e) ==
  CASE e.op = "call" -> ~s.on
    [] e.op = "begin" -> s.on /\ e.i \in 1..s.n /\ s.by[e.i] = -1
    [] e.op = "end" -> s.on /\ e.i \in 1..s.n /\ s.by[e.i] = e.t /\ e.i \notin s.done
    [] e.op = "ret" -> s.on /\ s.done = 1..s.n /\ Same(e.r, e.q)
    [] e.op = "elem" -> ~s.on /\ Same(e.r, e.q) /\ Same(e.x, e.y)      \* the result, and the argument left alone
PNext(s, e) ==
  CASE e.op = "call" -> [on |-> TRUE, n |-> e.n, by |-> [i \in 1..e.n |-> -1], done |-> {}]
    [] e.op = "begin" -> [s EXCEPT !.by[e.i] = e.t]
    [] e.op = "end" -> [s EXCEPT !.done = @ \cup {e.i}]
    [] e.op = "ret" -> P0
    [] OTHER -> s
=============================================================================
