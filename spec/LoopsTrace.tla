------------------------------ MODULE LoopsTrace ------------------------------
(* Real validation and training loops.  par: a configuration of Loops plus    *)
(* what ("val" / "pairs"), px, lens.  Events of a validation:                 *)
(*   fwd [src, ids, sub, role, mode]  a forward pass; src "cal" or "val"      *)
(*       loader, mode 1: training                                             *)
(*   stats [mean, var, rest, clean]   statistics of the layer after           *)
(*       calibrating, thousandths per channel; rest: the other channels and   *)
(*       layers kept theirs; clean: nothing is left on the network            *)
(*   metrics [ms]  what is reported: [pre, key, v]; the k-th evaluation       *)
(*       scored k                                                             *)
(*   kept [subs]   the widths seen, in order of evaluation                    *)
(* of a combined loader: pair [ids, epoch], stop.                             *)
EXTENDS TraceCheck, FiniteSets
L == INSTANCE Loops WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [q |-> IF par.what = "val" THEN L!Begin(par) ELSE L!Begin([n |-> 0]), t |-> 0, subs |-> <<>>, last |-> <<>>]
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
FwdBad(par, q, e) ==
  CASE L!Done(par, q) -> "a network is run after all are evaluated"
    [] ~L!Wide(par, q, e.sub) -> "another subnet than the listed one is active"
    [] e.role # par.kinds[q.k].role -> "another network than the listed one is evaluated"
    [] L!Calibrating(par, q) ->
         IF e.src # "cal" THEN "a subnet is evaluated before it is calibrated"
         ELSE IF e.ids # L!CalBatch(par, q) THEN "the samples calibrated with are not the first ones"
         ELSE IF e.mode # 1 THEN "calibrating in evaluation mode" ELSE ""
    [] OTHER ->
         IF e.src # "val" THEN "more samples than configured are calibrated with"
         ELSE IF e.ids # L!ValBatch(par, q) THEN "a batch is left out, repeated or out of order"
         ELSE IF e.mode # 0 THEN "evaluating in training mode" ELSE ""
StatsBad(par, s, e) ==
  LET used == s.q.used IN
  CASE e.clean = 0 -> "calibrating leaves something on the network"
    [] e.rest = 0 -> "calibrating changes the statistics of an inactive layer or channel"
    [] \E j \in 1..Len(e.mean) : ~Near(e.mean[j], L!Mean(used, j), 2) -> "a mean is not the sample-weighted average of the batches"
    [] \E j \in 1..Len(e.var) : ~Near(e.var[j], L!Var(used, j, par.px), 2 + Len(used)) -> "a variance is not the sample-weighted average of the batches"
    [] OTHER -> ""
\* flops and params of a subnet of par.px pixels per channel
Value(par, s, m, k) ==
  CASE m.key = "flops" -> 4 * par.px * s.subs[k][1]
    [] m.key = "params" -> 4 * s.subs[k][1]
    [] m.key = "latency" -> 0
    [] OTHER -> k
MetricsBad(par, s, e) ==
  CASE ~L!Done(par, s.q) -> "metrics are reported before all is evaluated"
    [] \E i \in 1..Len(e.ms) : \A k \in 1..Len(par.kinds) : par.kinds[k].pre # e.ms[i].pre -> "a metric is reported under another name"
    [] \E k \in 1..Len(par.kinds) : \A i \in 1..Len(e.ms) : ~(e.ms[i].pre = par.kinds[k].pre /\ e.ms[i].key = "acc") -> "a subnet is not reported"
    [] \E i \in 1..Len(e.ms) : \E k \in 1..Len(par.kinds) : e.ms[i].pre = par.kinds[k].pre /\ e.ms[i].v # Value(par, s, e.ms[i], k) -> "a subnet is reported with the value of another"
    [] OTHER -> ""
TStep(par, s, e) ==
  CASE e.op = "fwd" ->
         LET b == FwdBad(par, s.q, e)
             r == IF L!Calibrating(par, s.q) THEN L!Calibrated(par, s.q, e.sub) ELSE L!Evaluated(par, s.q, e.sub)
         IN  [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = r, !.subs = IF r.k # s.q.k THEN Append(@, e.sub) ELSE @], bad |-> b]
    [] e.op = "stats" -> [st |-> s, bad |-> IF L!Calibrating(par, s.q) THEN "fewer samples than configured are calibrated with" ELSE StatsBad(par, s, e)]
    [] e.op = "metrics" -> [st |-> s, bad |-> MetricsBad(par, s, e)]
    [] e.op = "pair" -> [st |-> [s EXCEPT !.t = @ + 1],
                         bad |-> IF e.ids # L!Pair(par.lens, s.t) THEN "the batches are not the next pair"
                                 ELSE IF e.epoch # L!Pass(par.lens, s.t) THEN "the pass is not counted" ELSE ""]
    [] e.op = "stop" -> [st |-> [s EXCEPT !.t = 0], bad |-> IF s.t # L!PassLen(par.lens) THEN "a pass does not end with the shortest loader" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
