------------------------------ MODULE DumpsTrace -------------------------------
(* Real training runs with dump and estimation hooks.  par: a configuration   *)
(* of Dumps plus els, the number of alternatives of each element.  Events:    *)
(*   iter / epoch / val [files, est, same]  what is on disk after it (oldest  *)
(*       first; other names: -1), estimates so far, same: the hook left       *)
(*       choices, fixed states, weights and modes as they were                *)
(*   file [k, els]  the subnet of moment k, loaded into a fresh model: number *)
(*       of the alternative each element is fixed to, 0: not fixed            *)
(*   end            the run is over                                           *)
(* of the probabilistic dump: sampled [i, ok, flops, target, els, n] one file *)
(*   of n plus the expected one (i = 0), widths els loaded into a fresh model *)
EXTENDS TraceCheck, FiniteSets
D == INSTANCE Dumps WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [q |-> IF par.what = "run" THEN D!Begin(par) ELSE D!Begin([begin |-> 0, iters |-> 0]), seen |-> {}, i |-> 0]
Can(par, q, e) == CASE e.op = "iter" -> D!CanIter(par, q) [] e.op = "epoch" -> D!CanEpoch(par, q) [] OTHER -> D!CanVal(par, q)
After(par, q, e) == CASE e.op = "iter" -> D!Iter(par, q) [] e.op = "epoch" -> D!Epoch(par, q) [] OTHER -> D!Val(par, q)
Legal(par, d) == Len(d) = Len(par.els) /\ \A i \in 1..Len(d) : d[i] \in 1..par.els[i]
HookBad(par, r, e) ==
  CASE \E i \in 1..Len(e.files) : e.files[i] = -1 -> "a file is not named after its moment"
    [] Len(e.files) > Len(r.files) -> "a subnet is dumped off schedule or kept too long"
    [] Len(e.files) < Len(r.files) -> "a scheduled subnet is not dumped or not kept"
    [] e.files # r.files -> "the subnets on disk are those of other moments"
    [] e.est # r.est -> "resources are not estimated on schedule"
    [] e.same = 0 -> "the hook changes the model"
    [] OTHER -> ""
Near(f, t) == 100 * f >= 95 * t - 100 /\ 100 * f <= 105 * t + 100
TStep(par, s, e) ==
  CASE e.op \in {"iter", "epoch", "val"} ->
         LET r == After(par, s.q, e)
         IN  IF ~Can(par, s.q, e) THEN [st |-> s, bad |-> "the run takes another course"]
             ELSE [st |-> [s EXCEPT !.q = r, !.seen = @ \cup D!Set(r.files)], bad |-> HookBad(par, r, e)]
    [] e.op = "file" ->
         [st |-> [s EXCEPT !.seen = @ \ {e.k}],
          bad |-> CASE e.k \notin s.seen -> "a file is not named after its moment"
                    [] Len(e.els) # Len(par.els) \/ (\E i \in 1..Len(e.els) : e.els[i] = 0) -> "a dumped subnet is not complete"
                    [] ~Legal(par, e.els) -> "a dumped subnet is not legal" [] OTHER -> ""]
    [] e.op = "end" -> [st |-> s, bad |-> IF ~D!Over(par, s.q) THEN "the run ends early" ELSE ""]
    [] e.op = "sampled" ->
         [st |-> [s EXCEPT !.i = @ + 1],
          bad |-> CASE e.names = 0 -> "not the configured number of sampled subnets and the expected one"
                    [] ~Legal(par, e.els) -> "a sampled subnet is not legal"
                    [] e.i > 0 /\ ~Near(e.flops, e.target) -> "a sampled subnet is not within 5% of the target"
                    [] OTHER -> ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
================================================================================
