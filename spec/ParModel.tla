------------------------------ MODULE ParModel ------------------------------
(***************************************************************************)
(* A team of threads evaluating a loop body element by element, with the   *)
(* iterations divided in advance into blocks, dealt in turn, or taken from *)
(* a shared counter; every interleaving of reading the element, evaluating *)
(* and storing the result.  Each step of the team is a step that Par       *)
(* allows, and when all threads have finished the result is the sequential *)
(* one, whatever the schedule.                                             *)
(***************************************************************************)
EXTENDS Par, FiniteSets
CONSTANTS MaxN, MaxT
VARIABLES n, T, sched, pc, idx, tmp, res, next, s, ok
vars == <<n, T, sched, pc, idx, tmp, res, next, s, ok>>
F(i) == 10 + i * i
\* the iterations given to thread t in advance, in order
Block(t) == LET q == n \div T r == n % T a == (t - 1) * q + (IF t - 1 < r THEN t - 1 ELSE r) m == q + (IF t - 1 < r THEN 1 ELSE 0) IN [k \in 1..m |-> a + k]
Cyclic(t) == LET m == IF t > n THEN 0 ELSE (n - t) \div T + 1 IN [k \in 1..m |-> t + (k - 1) * T]
Given(t) == IF sched = "block" THEN Block(t) ELSE Cyclic(t)
Init == /\ n \in 0..MaxN /\ T \in 1..MaxT /\ sched \in {"block", "cyclic", "dynamic"}
        /\ pc = [t \in 1..T |-> "take"] /\ idx = [t \in 1..T |-> 0] /\ tmp = [t \in 1..T |-> 0]
        /\ res = [i \in 1..n |-> 0] /\ next = 1
        /\ s = PNext(P0, [op |-> "call", n |-> n]) /\ ok = TRUE
Do(e) == ok' = (ok /\ PStep(s, e)) /\ s' = PNext(s, e)
Take(t) ==
  /\ pc[t] = "take"
  /\ LET k == idx[t] + 1 IN
     IF sched = "dynamic"
     THEN IF next > n THEN pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<tmp, next, idx, s, ok>>
          ELSE pc' = [pc EXCEPT ![t] = "eval"] /\ tmp' = [tmp EXCEPT ![t] = next] /\ next' = next + 1 /\ idx' = idx /\ Do([op |-> "begin", i |-> next, t |-> t])
     ELSE IF k > Len(Given(t)) THEN pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<tmp, next, idx, s, ok>>
          ELSE pc' = [pc EXCEPT ![t] = "eval"] /\ tmp' = [tmp EXCEPT ![t] = Given(t)[k]] /\ idx' = [idx EXCEPT ![t] = k] /\ next' = next /\ Do([op |-> "begin", i |-> Given(t)[k], t |-> t])
  /\ UNCHANGED <<n, T, sched, res>>
Eval(t) == pc[t] = "eval" /\ pc' = [pc EXCEPT ![t] = "store"] /\ Do([op |-> "end", i |-> tmp[t], t |-> t]) /\ UNCHANGED <<n, T, sched, idx, tmp, res, next>>
Store(t) == pc[t] = "store" /\ pc' = [pc EXCEPT ![t] = "take"] /\ res' = [res EXCEPT ![tmp[t]] = F(tmp[t])] /\ UNCHANGED <<n, T, sched, idx, tmp, next, s, ok>>
Next == \E t \in 1..T : Take(t) \/ Eval(t) \/ Store(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllDone == \A t \in 1..T : pc[t] = "done"
Allowed == ok
Sequential == AllDone => PStep(s, [op |-> "ret", r |-> res, q |-> [i \in 1..n |-> F(i)]])
OneWriter == \A t, u \in 1..T : t # u /\ pc[t] \in {"eval", "store"} /\ pc[u] \in {"eval", "store"} => tmp[t] # tmp[u]
Ends == <>AllDone
=============================================================================
