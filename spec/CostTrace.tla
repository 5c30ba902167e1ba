------------------------------ MODULE CostTrace ------------------------------
(* Histories of estimates of real networks.  par: w (as in Cost), cons, set   *)
(* (constructor and counting settings), one event per estimate:               *)
(*   est [call, sep, res, ok, same, shape]  call: the settings of the call;   *)
(*      sep: per-part estimates; res: the numbers [f, p] (in thousandths if   *)
(*      there is a unit); same: the network is left as it was;                *)
(*      str: they came as text with unit                                      *)
(* Settings: sp, units, str, off, parts, batch.                               *)
EXTENDS TraceCheck, FiniteSets
K == INSTANCE Cost WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [n |-> 0]
Range(q) == {q[i] : i \in 1..Len(q)}
EstBad(par, e) ==
  LET get(field, default) == K!Given(field, e.call, par.set, par.cons, default)
      sp == get("sp", <<>>)
      off == Range(get("off", <<>>))
      parts == get("parts", <<>>)
      u == get("units", "M")
      cost(x) == K!Costs(par.w, sp, x, off)
  IN CASE e.ok = 0 -> "the estimate fails"
       [] e.same = 0 -> "estimating changed the network"
       [] e.str # get("str", 0) -> "the numbers have not the configured form"
       [] e.sep = 1 /\ Len(e.res) # Len(parts) -> "not one estimate per part"
       [] e.sep = 1 -> IF \E j \in 1..Len(parts) : ~K!Reads(e.res[j].f, cost(parts[j]).f, u, 1) THEN "the operations of a part are not the sum over its layers' uses"
                       ELSE IF \E j \in 1..Len(parts) : ~K!Reads(e.res[j].p, cost(parts[j]).p, u, 1) THEN "the parameters of a part are not the sum over its layers' uses" ELSE ""
       [] OTHER -> LET ps == IF parts = <<>> THEN <<K!Whole>> ELSE parts IN
                   IF ~K!Reads(e.res[1].f, K!SumSeq([j \in 1..Len(ps) |-> cost(ps[j]).f]), u, Len(ps)) THEN "the operations are not the sum over the layers' uses"
                   ELSE IF ~K!Reads(e.res[1].p, K!SumSeq([j \in 1..Len(ps) |-> cost(ps[j]).p]), u, Len(ps)) THEN "the parameters are not the sum over the layers' uses" ELSE ""
TStep(par, s, e) ==
  CASE e.op = "est" -> [st |-> s, bad |-> EstBad(par, e)]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
