----------------------------- MODULE TraceCheck -----------------------------
(* Generic trace validation.  A trace file is a JSON list of [par, ev]; a   *)
(* module extending this one gives                                          *)
(*   Start(par)        the specification's state before the first event     *)
(*   Step(par, st, e)  [st |-> successor, bad |-> ""]  or, when event e is   *)
(*                     not a step of the specification in state st, bad =   *)
(*                     the clause that fails                                *)
(* Every trace is an initial state; exactly one VERDICT line per trace.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_), Step(_, _, _)
VARIABLES trNo, trAt, trState

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

TraceInit == /\ trNo \in 1..Len(Traces)
             /\ trAt = 0
             /\ trState = Start(Traces[trNo].par)

Verdict(n, b) == PrintT("VERDICT " \o ToJson([tr |-> trNo, l |-> n, bad |-> b]))

TraceNext ==
  /\ trAt >= 0
  /\ trAt < Len(Traces[trNo].ev)
  /\ LET R == Step(Traces[trNo].par, trState, Traces[trNo].ev[trAt+1])
     IN  IF R.bad # ""
         THEN /\ Verdict(trAt+1, R.bad)
              /\ trAt' = -1
              /\ UNCHANGED <<trNo, trState>>
         ELSE /\ trAt' = trAt + 1
              /\ trState' = R.st
              /\ UNCHANGED trNo
              /\ (trAt + 1 = Len(Traces[trNo].ev) => Verdict(trAt+1, ""))
=============================================================================
