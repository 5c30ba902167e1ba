----------------------------- MODULE SandwichTrace -----------------------------
(* Real training steps of slimmable, autoslim and bignas networks.  Events:   *)
(*   begin [d]      a training step on the data d                             *)
(*   sample [sub]   widths are sampled                                        *)
(*   fwd [sub, d, mode]  a forward pass for training                          *)
(*   soft [s, t]    a distillation loss of the passes s (smaller) and t       *)
(*   upd [g]        the optimizer steps; g: contributions in the gradients    *)
(*                  [n, v]: pass, millionths                                  *)
(*   done [ls]      the step returns losses [pre, key, v]: v the pass(es)     *)
(*   fail           the step was made to fail                                 *)
(*   val            a validation pass with any widths in between              *)
EXTENDS TraceCheck, FiniteSets
W == INSTANCE Sandwich WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [q |-> W!Begin(par), d |-> 0, ph |-> "o", soft |-> 0]
\* what was trained after the last forward is accounted for as late as seen
Settle(par, s) == IF s.ph = "b" THEN [s EXCEPT !.q = W!Backward(par, s.q), !.ph = "f"] ELSE s
Due(par, q) == q.pend # <<>> /\ W!Updates(par, q.cnt)
Part(c) == (1000000 * c.w) \div c.f
Near(a, b) == a - b <= 3 /\ b - a <= 3
GradBad(q, e) ==
  CASE \E i \in 1..Len(q.pend) : \A j \in 1..Len(e.g) : e.g[j].n # q.pend[i].n -> "the contribution of a subnet is lost"
    [] \E j \in 1..Len(e.g) : \A i \in 1..Len(q.pend) : e.g[j].n # q.pend[i].n -> "a contribution was used before"
    [] \E i \in 1..Len(q.pend) : \E j \in 1..Len(e.g) : e.g[j].n = q.pend[i].n /\ ~Near(e.g[j].v, Part(q.pend[i])) -> "a contribution has another weight"
    [] OTHER -> ""
LossBad(q, e) ==
  LET Id(x) == 1000 * x.t + x.n IN
  CASE \E i \in 1..Len(q.ls) : \A j \in 1..Len(e.ls) : ~(e.ls[j].pre = q.ls[i].pre /\ e.ls[j].key = q.ls[i].key) -> "a loss of a subnet is not reported"
    [] \E j \in 1..Len(e.ls) : \A i \in 1..Len(q.ls) : ~(e.ls[j].pre = q.ls[i].pre /\ e.ls[j].key = q.ls[i].key) -> "a loss is reported under another name"
    [] \E i \in 1..Len(q.ls) : \E j \in 1..Len(e.ls) : e.ls[j].pre = q.ls[i].pre /\ e.ls[j].key = q.ls[i].key /\ e.ls[j].v # Id(q.ls[i]) -> "a loss is that of another subnet"
    [] OTHER -> ""
TStep(par, s, e) ==
  CASE e.op = "begin" ->
         IF s.ph # "o" THEN [st |-> s, bad |-> "a step begins within a step"]
         ELSE [st |-> [s EXCEPT !.ph = "f", !.d = e.d], bad |-> IF Due(par, s.q) THEN "a due update was not made" ELSE ""]
    [] e.op = "sample" -> [st |-> [s EXCEPT !.q = W!Sampled(s.q, e.sub)], bad |-> IF W!Legal(par, e.sub) THEN "" ELSE "a sampled subnet is not one of the network"]
    [] e.op = "fwd" ->
         LET r == Settle(par, s) IN
         CASE s.ph = "b" /\ Due(par, r.q) -> [st |-> s, bad |-> "a due update was not made"]
           [] s.ph = "o" -> [st |-> s, bad |-> "a subnet is trained outside of a step"]
           [] ~W!Training(par, r.q) -> [st |-> s, bad |-> "more subnets than configured are trained"]
           [] ~W!Wide(par, r.q, e.sub) -> [st |-> s, bad |-> "another subnet than the prescribed one is trained"]
           [] e.d # s.d -> [st |-> s, bad |-> "a subnet is trained on other data"]
           [] e.mode # 1 -> [st |-> s, bad |-> "a subnet is trained in evaluation mode"]
           [] OTHER -> [st |-> [r EXCEPT !.q = W!Forward(par, r.q, e.sub), !.ph = "b"], bad |-> ""]
    [] e.op = "soft" ->
         [st |-> s, bad |-> IF s.ph # "b" \/ e.s # s.q.n THEN "the loss of another pass is computed"
                            ELSE IF W!Kind(par, s.q).soft = 0 THEN "the largest subnet learns from itself"
                            ELSE IF e.t # s.q.top THEN "a subnet learns from something else than the largest one in this step" ELSE ""]
    [] e.op = "upd" ->
         LET r == Settle(par, s) IN
         CASE s.ph = "o" -> [st |-> s, bad |-> "parameters are updated outside of a step"]
           [] ~Due(par, r.q) -> [st |-> s, bad |-> "parameters are updated before enough subnets are trained"]
           [] OTHER -> [st |-> [r EXCEPT !.q = W!Updated(r.q)], bad |-> GradBad(r.q, e)]
    [] e.op = "done" ->
         LET r == Settle(par, s) IN
         CASE r.q.k <= W!K(par) -> [st |-> s, bad |-> "fewer subnets than configured are trained"]
           [] Due(par, r.q) -> [st |-> s, bad |-> "a due update was not made"]
           [] OTHER -> [st |-> [r EXCEPT !.q = W!Finished(r.q), !.ph = "o"], bad |-> LossBad(r.q, e)]
    [] e.op = "fail" -> [st |-> [s EXCEPT !.q = W!Failed(Settle(par, s).q), !.ph = "o"], bad |-> ""]
    [] e.op = "val" -> [st |-> s, bad |-> IF s.ph # "o" THEN "a validation pass in a training step" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
