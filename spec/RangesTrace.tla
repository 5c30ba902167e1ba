----------------------------- MODULE RangesTrace -----------------------------
(* Recorded histories of real IndexDicts (par.n = 0) and containers against   *)
(* Ranges.tla; keys = the ranges afterwards, mask = what a read returned.     *)
EXTENDS TraceCheck, FiniteSets
R == INSTANCE Ranges WITH Configs <- <<>>, Prefixes <- FALSE, S <- trState, ev <- trNo
TStart(par) == R!Start(par)
TStep(par, s, e) ==
  LET ok(x) == [st |-> x, ok |-> TRUE]
      N == CASE e.op = "reg" -> R!Reg(s, e.m, e.s, e.e)
             [] e.op = "del" -> R!Del(s, e.s, e.e)
             [] e.op = "set" -> ok(R!SetMask(s, e.m, e.mask))
             [] e.op = "read" -> ok(R!Read(s, par.n))
      bad == CASE N.ok # e.ok -> e.op \o " should " \o (IF N.ok THEN "succeed" ELSE "fail")
               [] e.op = "read" /\ e.mask # R!Mask(s, par.n) -> "kept channels differ"
               [] e.keys # R!Keys(N.st) -> "registered ranges differ"
               [] e.vals # [k \in 1..Len(N.st.regs) |-> N.st.regs[k].m] -> "registered elements differ"
               [] OTHER -> ""
  IN [st |-> N.st, bad |-> bad]
=============================================================================
