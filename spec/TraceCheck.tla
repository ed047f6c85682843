----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Trace validation.  The harness, compiled from /repo's sources, logs one *)
(* event per public call (operation, arguments, observed result), grouped  *)
(* into traces; a trace is a line of the ndjson file TRACE.  Every trace   *)
(* must be a behaviour of the machine given by                             *)
(*    Start          the initial abstract state,                           *)
(*    Accepts(s, e)  event e is a step the machine can take in state s,    *)
(*    After(s, e)    the state after that step.                            *)
(* An event the machine cannot take is reported and ends its trace.        *)
(***************************************************************************)
EXTENDS Rat, TLC, Json, IOUtils

CONSTANTS Start, Accepts(_, _), After(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr,   \* which trace
          pos,  \* the next event of it
          st    \* the abstract state

tcvars == <<tr, pos, st>>

Defined(x) == x

TCInit == tr \in 1..Len(Traces) /\ pos = 1 /\ st = Start

TCNext == /\ pos <= Len(Traces[tr])
          /\ LET e == Traces[tr][pos] IN
               IF Defined(Accepts(st, e))
               THEN /\ st' = After(st, e)
                    /\ pos' = pos + 1
                    /\ tr' = tr
               ELSE PrintT(<<"REJECT", tr, pos>>) /\ FALSE
=============================================================================
