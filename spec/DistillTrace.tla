------------------------------ MODULE DistillTrace -----------------------------
(* Real distillation training steps.  Events:                                 *)
(*   begin          a training step begins                                    *)
(*   pass [role, d, same, grad, ig, train, bn, aug]  a forward pass; d the    *)
(*       data or image; grad: gradients are recorded; ig: the images carry    *)
(*       gradients; train / bn: the network / its norms train; aug: values of *)
(*       the delivered function                                               *)
(*   loss [set, name, s, t, tg]  a loss from s and t; tg: t carries gradients *)
(*   upd [role, g]  the optimizer of role steps with contributions of the     *)
(*       passes (S) or images (G) g                                           *)
(*   done [ls, tw, tb]  what the step reports; tw, tb: weights / statistics   *)
(*       of a teacher changed                                                 *)
(*   val [tb]  a validation pass in between, in evaluation mode               *)
EXTENDS TraceCheck, FiniteSets
D == INSTANCE Distill WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [q |-> D!Begin(par), on |-> 0, d |-> 0]
PassBad(c, s, e) ==
  LET q == s.q a == D!At(c, q) IN
  CASE ~D!Running(c, q) \/ a.kind # "pass" -> "a pass which is not due"
    [] e.role # a.role -> "another network runs than the one due"
    [] a.img = "data" /\ e.d # s.d -> "a network runs on other data than the step's"
    [] a.img = "new" /\ e.d # q.img + 1 -> "the student does not run on new images"
    [] a.img = "same" /\ e.d # q.img -> "student and teacher run on different images"
    [] e.grad # a.grad -> IF a.grad = 1 THEN "a pass which is trained runs without gradients" ELSE "a pass which is not trained runs with gradients"
    [] D!Free(c) /\ a.role = "S" /\ e.ig # (IF a.set = "g" THEN 1 ELSE 0) -> "gradients do not reach the generator, or do so in the student's step"
    [] a.role = "S" /\ e.train # 1 -> "the student runs in evaluation mode"
    [] a.role # "S" /\ ~D!Free(c) /\ e.bn # 1 - c.ne -> "norms of the teacher are not in the configured mode"
    [] a.role # "S" /\ D!Free(c) /\ e.bn + e.train # 0 -> "a teacher does not run in evaluation mode"
    [] e.aug # D!Asked(c, q, e.role) -> "a delivered value is not the one of the teacher in this step"
    [] OTHER -> ""
LossIndex(c, q, e) == {j \in q.left : D!Names(c, D!At(c, q).set)[j].name = e.name}
LossBad(c, s, e) ==
  LET q == s.q IN
  CASE ~D!Running(c, q) \/ D!At(c, q).kind # "loss" \/ D!At(c, q).set # e.set -> "a distillation loss is computed which is not due"
    [] LossIndex(c, q, e) = {} -> "a distillation loss is computed again"
    [] OTHER ->
         LET j == CHOOSE j \in LossIndex(c, q, e) : TRUE x == D!Names(c, e.set)[j] IN
         CASE e.s # D!Code(c, q, x.s) -> "a loss is not computed from what was produced in this step (first operand)"
           [] e.t # D!Code(c, q, x.t) -> "a loss is not computed from what was produced in this step (second operand)"
           [] e.tg = 1 /\ x.t.role = "T1" /\ (c.alg = "byot" \/ (c.alg \in {"single", "fpn"} /\ c.tt = 0)) -> "gradients reach the teacher"
           [] OTHER -> ""
UpdBad(c, s, e) ==
  LET q == s.q IN
  CASE ~D!Running(c, q) \/ D!At(c, q).kind # "upd" -> "parameters are updated when it is not due"
    [] e.role # D!At(c, q).role -> "another network is updated than the one due"
    [] e.role = "S" /\ D!Free(c) /\ \E i \in 1..Len(e.g) : e.g[i] # q.ds -> "the student is updated with gradients of other losses"
    [] e.role = "S" /\ ~D!Free(c) /\ \E i \in 1..Len(e.g) : e.g[i] # q.last["S"] -> "the student is updated with gradients of another step"
    [] e.role = "G" /\ \E i \in 1..Len(e.g) : e.g[i] # q.gi -> "the generator is updated with gradients of other losses"
    [] OTHER -> ""
DoneBad(c, s, e) ==
  LET q == s.q rs == D!Reported(q) IN
  CASE D!Running(c, q) -> "a step ends early"
    [] \E i \in 1..Len(rs) : \A j \in 1..Len(e.ls) : e.ls[j] # rs[i].x -> "a loss is not reported"
    [] \E j \in 1..Len(e.ls) : \A i \in 1..Len(rs) : e.ls[j] # rs[i].x -> "a loss is reported which should not be"
    [] e.tw = 1 /\ (D!Free(c) \/ c.tt = 0) -> "the teacher's weights are changed"
    [] e.tb = 1 /\ (D!Free(c) \/ c.ne = 1) -> "the teacher's statistics are changed"
    [] OTHER -> ""
TStep(c, s, e) ==
  CASE e.op = "begin" -> [st |-> [s EXCEPT !.on = 1, !.d = e.d, !.q = D!Start(c, @)], bad |-> IF s.on = 1 THEN "a step begins within a step" ELSE ""]
    [] e.op = "pass" -> LET b == IF s.on = 0 THEN "a pass outside of a step" ELSE PassBad(c, s, e)
                        IN  [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = D!Pass(c, @)], bad |-> b]
    [] e.op = "loss" -> LET b == LossBad(c, s, e)
                        IN  [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = D!Lossed(c, @, CHOOSE j \in LossIndex(c, s.q, e) : TRUE)], bad |-> b]
    [] e.op = "upd" -> LET b == UpdBad(c, s, e) IN [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = D!Updated(c, @)], bad |-> b]
    [] e.op = "done" -> LET b == DoneBad(c, s, e) IN [st |-> IF b # "" THEN s ELSE [s EXCEPT !.q = D!Finished(c, @), !.on = 0], bad |-> b]
    [] e.op = "val" -> [st |-> s, bad |-> IF s.on = 1 THEN "a validation pass in a training step" ELSE IF e.tb = 1 THEN "validating changes the teacher" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
