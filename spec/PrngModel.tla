------------------------------ MODULE PrngModel -----------------------------
(***************************************************************************)
(* Histories of two generators under draw, discard, seed, save, restore    *)
(* and copy.  Checked: the state of a generator is a function of the state *)
(* last installed and the number of draws since (ghost variables), so      *)
(* discards equal draws and a restored state replays.  The same machine,   *)
(* run by TLC's simulator, emits the histories replayed on the real code.  *)
(***************************************************************************)
EXTENDS Prng, IOUtils, Sequences

CONSTANTS Kinds, MaxLen

VARIABLES gens, ghost, saved, hist
vars == <<gens, ghost, saved, hist>>

Regs == {"a", "b"}
Seeds == {"0", "1", "2", "48271", "2147483646", "4294967296", "9223372036854775808", "18446744073709551615", "12345678901234567890"}

Init == /\ \E ka \in Kinds, kb \in Kinds, sa \in Seeds, sb \in Seeds :
             /\ gens = [a |-> Seeded(ka, sa, <<>>), b |-> Seeded(kb, sb, <<>>)]
             /\ hist = <<"new", "a", ka, sa, ";", "new", "b", kb, sb, ";">>
        /\ ghost = [r \in Regs |-> [base |-> gens[r], n |-> 0]]
        /\ saved = [r \in Regs |-> gens[r]]

Log(t) == hist' = hist \o t \o <<";">>
DrawA(r)  == /\ gens' = [gens EXCEPT ![r] = Draw(@)] /\ ghost' = [ghost EXCEPT ![r].n = @ + 1]
             /\ \E how \in {"next", "call", "shift"} : Log(<<"draw", r, how>>)
             /\ UNCHANGED saved
Discard(r, n) == /\ gens' = [gens EXCEPT ![r] = Drawn(@, n)] /\ ghost' = [ghost EXCEPT ![r].n = @ + n]
                 /\ Log(<<"discard", r, n>>) /\ UNCHANGED saved
Reseed(r, v) == /\ gens' = [gens EXCEPT ![r].x = v]
                /\ ghost' = [ghost EXCEPT ![r] = [base |-> gens'[r], n |-> 0]]
                /\ Log(<<"seed", r, v>>) /\ UNCHANGED saved
Save(r)   == /\ saved' = [saved EXCEPT ![r] = gens[r]]
             /\ Log(<<"save", r>>) /\ UNCHANGED <<gens, ghost>>
Restore(r) == /\ saved[r].kind = gens[r].kind
              /\ gens' = [gens EXCEPT ![r].x = saved[r].x, ![r].p = saved[r].p]
              /\ ghost' = [ghost EXCEPT ![r] = [base |-> saved[r], n |-> 0]]
              /\ Log(<<"restore", r>>) /\ UNCHANGED saved
Copy(r, q) == /\ gens' = [gens EXCEPT ![r] = gens[q]] /\ ghost' = [ghost EXCEPT ![r] = ghost[q]]
              /\ Log(<<"copy", r, q>>) /\ UNCHANGED saved

Next == /\ Len(hist) < MaxLen
        /\ \E r \in Regs :
             \/ DrawA(r) \/ DrawA(r)
             \/ \E n \in {0, 1, 2, 7} : Discard(r, n)
             \/ \E v \in {"1", "7", "18446744073709551615"} : Reseed(r, v)
             \/ Save(r) \/ Restore(r)
             \/ Copy(r, "a") \/ Copy(r, "b")

FunctionOfHistory == \A r \in Regs : gens[r] = Drawn(ghost[r].base, ghost[r].n)
InWords == \A r \in Regs : /\ RLe(0, gens[r].x) /\ RLt(gens[r].x, W64)
                           /\ \A i \in DOMAIN gens[r].p : RLe(0, gens[r].p[i]) /\ RLt(gens[r].p[i], W64)
EmitDone == Len(hist) >= MaxLen => Emit(IOEnv.OUT, hist \o <<"state", "a", ";", "state", "b">>)
=============================================================================
