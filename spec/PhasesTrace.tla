------------------------------ MODULE PhasesTrace ------------------------------
(* Real training steps of searches.  Events:                                  *)
(*   begin [win, clear, direct, s, a]  a step begins with batches s and a     *)
(*   pass [d, tr, home, ops, w, arch]  a forward pass of batch d in mode tr;  *)
(*       home: with the weights the step began with; ops: for every group and *)
(*       member the alternatives which run; w the widths; arch: the           *)
(*       architecture takes part                                              *)
(*   soft [s, t]  a distillation loss from passes s and t of the step         *)
(*   upd [who, from, groups, dir, toward, other]  an update with contributions*)
(*       of the passes from; groups: groups with a gradient; dir: gradients   *)
(*       are those due; toward: towards the target; other: something else     *)
(*       than who has changed                                                 *)
(*   done [fix, stray, tr]  fix of every group and member (0: not fixed);     *)
(*       stray: something changed other than by updates; tr: training mode    *)
EXTENDS TraceCheck, FiniteSets
P == INSTANCE Phases WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [q |-> P!Begin(par), s |-> 0, a |-> 0, maxn |-> 0]
BeginBad(c, s, e) ==
  CASE s.q.i # 0 -> "a step begins within a step"
    [] c.loop = "epoch" /\ e.s # s.q.k + 1 -> "a step is not given the next batch"
    [] c.alg = "darts" /\ c.dict = 1 /\ e.a # e.s + 1000 -> "the batches of a step do not belong together"
    [] OTHER -> ""
PassBad(c, s, e) ==
  LET q == s.q x == P!At(c, q) fix == P!Used(c, q) IN
  CASE ~P!Running(c, q) \/ x.op # "pass" -> "a pass which is not due"
    [] e.d # (IF x.d = "s" THEN s.s ELSE s.a) -> "a pass with another batch than the one due"
    [] e.tr # x.tr -> "a pass in the wrong mode"
    [] c.alg = "darts" /\ e.home # x.home -> IF x.home = 1 THEN "the weights have moved before they are due" ELSE "the look-ahead does not move the weights"
    [] c.alg = "dsnas" /\ \E g \in P!Groups(c) : \E m \in 1..c.mem[g] : ~P!MayRun(c, fix, g, e.ops[g][m])
         -> "the alternatives which run are not the ones of the phase"
    [] c.alg = "darts" /\ \E g \in P!Groups(c) : \E m \in 1..c.mem[g] :
         {e.ops[g][m][i] : i \in 1..Len(e.ops[g][m])} # 1..c.ns[g] -> "an alternative does not take part"
    [] c.alg = "dmcp" /\ ~P!Widths(c, q, x.kind, e.w) -> "the widths are not the ones of the phase"
    [] c.alg = "dmcp" /\ e.arch # P!Arch(c, q, e.w) -> "the architecture takes part outside its phase, or does not take part within"
    [] OTHER -> ""
\* the number of the last pass in training mode with the widths kind
SoftBad(c, s, e) ==
  CASE ~P!Running(c, s.q) \/ P!At(c, s.q).op # "soft" -> "distillation before it is due"
    [] e.s # s.q.n \/ e.t # s.maxn -> "distillation is not between this pass and the largest subnet"
    [] OTHER -> ""
UpdBad(c, s, e) ==
  LET q == s.q x == P!At(c, q) IN
  CASE ~P!Running(c, q) \/ x.op # "upd" -> "an update which is not due"
    [] e.who # x.who -> "the other parameters are updated than the ones due"
    [] {e.from[i] : i \in 1..Len(e.from)} # x.from -> "an update takes in gradients of other passes, or not those of its own"
    [] c.alg = "dsnas" /\ e.who = "a" /\ \E i \in 1..Len(e.groups) : q.fix[e.groups[i]] # 0 -> "a fixed operation is updated"
    [] e.dir = 0 -> "the gradients of the architecture are not those due"
    [] e.toward = 0 -> "the architecture is not updated towards the target"
    [] e.other = 1 -> "an update changes other parameters too"
    [] OTHER -> ""
DoneBad(c, s, e) ==
  LET q == s.q IN
  CASE P!Running(c, q) -> "a step ends without what is due"
    [] e.stray = 1 -> "parameters are changed other than by an update"
    [] e.tr = 0 -> "a step leaves the network in evaluation mode"
    [] c.alg = "dsnas" /\ \E g \in P!Groups(c) : \E m \in 1..c.mem[g] : e.fix[g][m] # q.fix[g]
         -> "operations are not fixed to their winners, or fixed too early"
    [] OTHER -> ""
TStep(c, s, e) ==
  CASE e.op = "begin" -> [st |-> [s EXCEPT !.q = P!Start(c, @, e.win, e.clear, e.direct), !.s = e.s, !.a = e.a, !.maxn = 0], bad |-> BeginBad(c, s, e)]
    [] e.op = "pass" -> LET b == PassBad(c, s, e)
                        IN  [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = P!Passed(c, @), !.maxn = IF P!At(c, s.q).kind = "max" THEN s.q.n + 1 ELSE @], bad |-> b]
    [] e.op = "soft" -> LET b == SoftBad(c, s, e) IN [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = P!Next1(@)], bad |-> b]
    [] e.op = "upd" -> LET b == UpdBad(c, s, e) IN [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = P!Next1(@)], bad |-> b]
    [] e.op = "done" -> LET b == DoneBad(c, s, e) IN [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = P!Finished(c, @)], bad |-> b]
    [] e.op = "end" -> [st |-> s, bad |-> IF e.steps # (IF c.loop = "epoch" THEN (c.epochs - c.first) * c.iters ELSE c.iters) THEN "the run makes another number of steps" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
