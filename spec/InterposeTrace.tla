---------------------------- MODULE InterposeTrace ----------------------------
(* Recorded histories of real recorders and deliveries against Interpose.    *)
(* par = [L, srcs]; ev = [op, g, src, v, ok, r, D] (D = all observed buffers *)
(* and queues after the event, n = executions of originals)                  *)
EXTENDS TraceCheck, FiniteSets
I == INSTANCE Interpose WITH L <- <<>>, NG <- 0, MaxN <- 0, MaxEnter <- 0, HMax <- 0, Vals <- {},
                             Srcs <- {}, S <- trState, ev <- trNo, H <- trAt
TStart(par) == I!S0(par.L)
TStep(par, s, e) ==
  LET R == CASE e.op = "call"  -> I!DoCall(par.L, s, e.src, e.v)
             [] e.op = "enter" -> [st |-> I!DoEnter(par.L, s, e.g), ok |-> TRUE, r |-> 0]
             [] e.op \in {"exit", "raise"} -> [st |-> I!DoExit(par.L, s, e.g), ok |-> TRUE, r |-> 0]
             [] e.op = "ov"    -> [st |-> I!DoOv(par.L, s, e.g, e.v = 1), ok |-> TRUE, r |-> 0]
      bad == CASE e.op = "call" /\ ~I!CallOK(par.L, s, e.src) -> ""
               [] R.ok # e.ok -> "the call should " \o (IF R.ok THEN "succeed" ELSE "fail")
               [] R.r # e.r -> "wrong result"
               [] R.st.n # e.n -> "original executed a wrong number of times"
               [] R.st.D # e.D -> "recorded / queued data differ"
               [] ~e.clean -> "original not restored"
               [] OTHER -> ""
  IN [st |-> R.st, bad |-> bad]
=============================================================================
