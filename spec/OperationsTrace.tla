--------------------------- MODULE OperationsTrace ---------------------------
(* Recorded histories of real searchable operations against Operations.tla.   *)
(* par is the configuration plus foc ("src" C01, "fix" C02); events as there  *)
(* with out = the observed output / sample, and obs = [ch, keep, fx, out]     *)
(* afterwards (out: of a plain forward).                                      *)
EXTENDS TraceCheck, FiniteSets
O == INSTANCE Operations WITH Configs <- <<>>, S <- trState, ev <- trNo
TStart(par) == O!Start(par)
TStep(par, s, e) ==
  LET same(ok, outs) == [st |-> s, ok |-> ok, outs |-> outs]
      F == O!Fix(par, s, e.v)
      P == O!FwdP(par, s, e.p)
      R == CASE e.op = "assign" -> [st |-> O!Assign(par, s, e.v[1]), ok |-> TRUE, outs |-> {}]
             [] e.op = "fix" -> [st |-> F.st, ok |-> F.ok, outs |-> {}]
             [] e.op = "unfix" -> same(~s.fx, {})
             [] e.op = "fwdp" -> [st |-> P.st, ok |-> TRUE, outs |-> P.outs]
             [] e.op = "fwd" -> same(O!Out(par, s) >= 0, {O!Out(par, s)})
             [] e.op = "sample" -> same(TRUE, O!Kept(par, s))
             [] e.op = "tops" -> same(TRUE, {})
      cat == IF s.fx \/ R.st.fx \/ e.op \in {"fix", "unfix"} THEN "fix" ELSE "src"
      bad == CASE R.ok # e.ok -> e.op \o " should " \o (IF R.ok THEN "succeed" ELSE "fail")
               [] e.ok /\ R.outs # {} /\ ~(e.out \in R.outs) -> e.op \o ": wrong output"
               [] e.op = "tops" /\ e.v # O!Tops(e.p, 1..par.n, par.num) -> "not the best alternatives"
               [] e.obs # [ch |-> R.st.ch, keep |-> R.st.keep, fx |-> R.st.fx, out |-> O!Out(par, R.st)] -> e.op \o ": wrong report"
               [] OTHER -> ""
  IN [st |-> R.st, bad |-> IF bad # "" /\ cat # par.foc THEN "skip" ELSE bad]
=============================================================================
