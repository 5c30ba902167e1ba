------------------------------ MODULE NetTrace ------------------------------
(* Recorded analyses of real networks against Net.tla.  par = [cin, nl];      *)
(* events are the program's steps, then                                       *)
(*   done                the program is complete                              *)
(*   same [ok]           whether the network was left as it was              *)
(*   failed              the analysis raised an exception                     *)
(*   units [units]       what the channel analysis returned                   *)
EXTENDS TraceCheck, FiniteSets
N == INSTANCE Net
TStart(par) == N!Start(par.cin, par.nl)
TStep(par, s, e) ==
  CASE e.op = "done" -> [st |-> N!Finish(s), bad |-> ""]
    [] e.op = "units" -> [st |-> s, bad |-> N!UnitsBad(s, e.units)]
    [] e.op = "same" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE "the analysis changed the network"]
    [] e.op = "failed" -> [st |-> s, bad |-> IF N!Entangled(s) /\ par.key = "" THEN "skip" ELSE "the analysis fails"]
    [] OTHER -> IF N!Legal(s, e) THEN [st |-> N!Apply(s, e), bad |-> ""]
                ELSE [st |-> s, bad |-> "machinery: illegal program"]
=============================================================================
