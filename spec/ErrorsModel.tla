----------------------------- MODULE ErrorsModel ----------------------------
(***************************************************************************)
(* Every history of a few calls of Errors, valid and invalid, in each      *)
(* configuration: the steps the machine takes are those of an independent  *)
(* description, a register and an outcome per call.                        *)
(***************************************************************************)
EXTENDS Errors
CONSTANT Depth
VARIABLES mode, s, last, n
vars == <<mode, s, last, n>>
Calls == {<<"sqrt", <<"4">>, <<"2">>>>, <<"sqrt", <<"-1">>, <<"nan">>>>, <<"ln", <<"0">>, <<"-inf">>>>, <<"vsum", <<"2", "3">>, <<>>>>,
          <<"cdivr", <<"0">>, <<"nan", "nan">>>>, <<"newton", <<"1">>, <<"nan">>>>, <<"newton", <<"-1">>, <<"1">>>>, <<"binom", <<"2", "3">>, <<"0">>>>, <<"cdivr", <<"1e-20">>, <<"5">>>>}
Regs == {"0", "EDOM", "ERANGE", "EINVAL"}
Ths == Kinds \cup {""}
Event(c, err, th) == [op |-> "call", f |-> c[1], a |-> c[2], r |-> IF th = "" THEN c[3] ELSE <<>>, mode |-> mode, err |-> err, th |-> th, fn |-> IF th = "" THEN "" ELSE c[1], file |-> "f.h", line |-> 7,
                      what |-> "x", text |-> TRUE, std |-> TRUE, val |-> c[2][1]]
Init == mode \in {"errno", "throw", "only"} /\ s = E0 /\ last = <<>> /\ n = 0
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED mode
        /\ \/ s' = ENext(s, [op |-> "clear", mode |-> mode]) /\ last' = <<>>
           \/ \E c \in Calls, err \in Regs, th \in Ths :
                LET e == Event(c, err, th)
                IN  EStep(s, e) /\ s' = ENext(s, e) /\ last' = <<c, err, th, s.err>>
Spec == Init /\ [][Next]_vars
Call == last # <<>>
P == Pre(last[1][1], last[1][2])
\* no exceptions without their configuration, no register change with exceptions only
Modes == Call => /\ mode = "errno" => last[3] = ""
                 /\ mode = "only" => s.err = last[4]
\* a call that must be signalled is; one that must not is not
Signals == Call => /\ P.need => (IF mode = "errno" THEN s.err # "0" ELSE last[3] \in P.kinds)
                   /\ P.kinds = {} => last[3] = "" /\ s.err = last[4]
\* register and exception agree
Agree == Call /\ mode = "throw" /\ last[3] # "" => s.err = Errno(last[3])
\* some step is possible for every call (the machine is total)
Total2 == \A c \in Calls : \E err \in Regs, th \in Ths : EStep(s, Event(c, err, th))
\* a call has one outcome, unless its argument may count as zero
Single == \A c \in Calls : c[1] # "cdivr" => Cardinality({<<err, th>> \in Regs \X Ths : EStep(s, Event(c, err, th))}) = 1
\* a valid call returning something else than before is rejected
Memo == \A k \in DOMAIN s.memo : ~EStep(s, [Event(<<k[1], k[2], <<"77">>>>, s.err, "") EXCEPT !.r = <<"77">>])
=============================================================================
