--------------------------------- MODULE Phases ---------------------------------
(* Training steps which update weights and an architecture in turn.           *)
(* A configuration c: alg "dsnas" / "darts" / "dmcp";  dict: weights and      *)
(*   architecture have optimizers of their own;                               *)
(*   dsnas: pre, fine the epochs the search and the fine-tuning begin with;   *)
(*     ns the number of alternatives of each group of operations, mem of its  *)
(*     members; thr: an alternative which clearly wins is fixed at once;      *)
(*   darts: unroll: the architecture looks one step of the weights ahead;     *)
(*   dmcp: strat the widths passed through in a step ("max", "min", "arch",   *)
(*     "sched"), astart, freq: after that iteration the architecture is       *)
(*     trained, every freq iterations; dt the iteration after which there is  *)
(*     distillation; sure: scheduled passes never are random; hi, lo, by: the *)
(*     most and least channels of each unit and the steps in between;         *)
(*   first epoch (or iteration), iters per epoch, by epochs or iterations.    *)
(* The architecture is known by its learned values: win the winner of each    *)
(*   group, clear whether it wins clearly; direct the widths it stands for.   *)
(* A step is a plan of items: "pass" of batch d ("s" of the weights or "a" of *)
(*   the architecture) with widths kind; home: at the weights the step began  *)
(*   with; tr in training mode; "soft" a distillation loss; "upd" an update   *)
(*   of who from the passes from (counted within the step).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
Pass(d, kind, home, tr) == [op |-> "pass", d |-> d, kind |-> kind, home |-> home, tr |-> tr, who |-> "", from |-> {}]
Upd(who, from) == [op |-> "upd", d |-> "", kind |-> "", home |-> 1, tr |-> 1, who |-> who, from |-> from]
Soft == [op |-> "soft", d |-> "", kind |-> "", home |-> 1, tr |-> 1, who |-> "", from |-> {}]
Searching(c, ep) == c.pre <= ep /\ ep < c.fine
Tuning(c, ep) == c.dict = 1 /\ ep >= c.fine
Training(c, it) == it > c.astart
Kind(c, q, x) == CASE x \in {"max", "min"} -> x
                   [] x = "arch" -> IF Training(c, q.it) THEN "direct" ELSE "random"
                   [] OTHER -> IF ~Training(c, q.it) THEN "random" ELSE IF c.sure = 1 THEN "direct" ELSE "either"
RECURSIVE Strategy(_, _, _)
Strategy(c, q, i) ==
  IF i > Len(c.strat) THEN <<>>
  ELSE <<Pass("s", Kind(c, q, c.strat[i]), 0, 1)>>
       \o (IF c.strat[i] # "max" /\ q.it > c.dt THEN <<Soft>> ELSE <<>>)
       \o <<Upd("w", {i})>> \o Strategy(c, q, i + 1)
ArchDue(c, it) == Training(c, it) /\ it % c.freq = 0
Plan(c, q) ==
  CASE c.alg = "dsnas" -> <<Pass("s", "ops", 1, 1), Upd("w", {1})>>
                            \o (IF c.dict = 1 /\ Searching(c, q.ep) THEN <<Upd("a", {})>> ELSE <<>>)
    [] c.alg = "darts" ->
         IF c.dict = 0 THEN <<Pass("s", "all", 1, 1), Upd("w", {1})>>
         ELSE IF c.unroll = 1
         THEN <<Pass("s", "all", 1, 1), Pass("a", "all", 0, 1), Pass("s", "all", 0, 1), Pass("s", "all", 0, 1),
                Upd("a", {2, 3, 4}), Pass("s", "all", 1, 1), Upd("w", {5})>>
         ELSE <<Pass("a", "all", 1, 1), Upd("a", {1}), Pass("s", "all", 1, 1), Upd("w", {2})>>
    [] OTHER -> Strategy(c, q, 1)
                  \o (IF ArchDue(c, q.it)
                      THEN <<Pass("s", "max", 0, 0), Upd("a", {Len(c.strat) + 1}), Upd("a", {})>> ELSE <<>>)
Groups(c) == 1..Len(c.ns)
Units(c) == 1..Len(c.hi)
Begin(c) == [ep |-> c.first, it |-> IF c.loop = "epoch" THEN c.first * c.iters ELSE c.first, k |-> 0, i |-> 0, n |-> 0,
             fix |-> [g \in Groups(c) |-> 0], win |-> [g \in Groups(c) |-> 1], clear |-> [g \in Groups(c) |-> 0],
             direct |-> [u \in Units(c) |-> c.lo[u]]]
\* a step begins, with what has been learned so far
Start(c, q, win, clear, direct) ==
  [q EXCEPT !.i = 1, !.n = 0, !.win = win, !.clear = clear, !.direct = direct,
            !.fix = IF c.alg = "dsnas" /\ Tuning(c, q.ep)
                    THEN [g \in Groups(c) |-> IF @[g] = 0 THEN win[g] ELSE @[g]] ELSE @]
At(c, q) == Plan(c, q)[q.i]
Running(c, q) == q.i \in 1..Len(Plan(c, q))
\* an alternative which clearly wins is fixed as soon as the operation is used
Used(c, q) == IF c.alg # "dsnas" \/ c.thr = 0 THEN q.fix
              ELSE [g \in Groups(c) |-> IF q.fix[g] = 0 /\ q.clear[g] = 1 THEN q.win[g] ELSE q.fix[g]]
Passed(c, q) == [q EXCEPT !.i = @ + 1, !.n = @ + 1, !.fix = Used(c, q)]
Next1(q) == [q EXCEPT !.i = @ + 1]
Finished(c, q) == LET e == c.loop = "epoch" /\ q.k + 1 >= c.iters
                  IN [q EXCEPT !.i = 0, !.n = 0, !.it = @ + 1, !.k = IF e THEN 0 ELSE @ + 1, !.ep = IF e THEN @ + 1 ELSE @]
\* what may run of the alternatives of a group, given what is fixed when used
MayRun(c, fix, g, run) == IF fix[g] # 0 THEN run = <<fix[g]>> ELSE Len(run) = 1 /\ run[1] \in 1..c.ns[g]
Legal(c, u, w) == c.lo[u] <= w /\ w <= c.hi[u] /\ (c.by[u] = 0 \/ (w - c.lo[u]) % c.by[u] = 0)
Widths(c, q, kind, w) ==
  \A u \in Units(c) : CASE kind = "max" -> w[u] = c.hi[u]
                        [] kind = "min" -> w[u] = c.lo[u]
                        [] kind = "direct" -> w[u] = q.direct[u]
                        [] OTHER -> Legal(c, u, w[u])
\* whether the architecture takes part in a pass
Arch(c, q, w) == IF Training(c, q.it) /\ \E u \in Units(c) : w[u] > c.lo[u] THEN 1 ELSE 0

\* ------------------------------------------------------------- the machine
C == Configs[S.c]
Q == S.q
Init == /\ S \in {[c |-> i, q |-> Begin(Configs[i]), seen |-> <<>>, steps |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Directs(c) == {[u \in Units(c) |-> c.lo[u]], [u \in Units(c) |-> c.hi[u]]}
Nxt == /\ S.steps < 6
       /\ \/ /\ Q.i = 0
             /\ \E win \in {f \in [Groups(C) -> 1..3] : \A g \in Groups(C) : f[g] <= C.ns[g]}, clear \in [Groups(C) -> {0, 1}], d \in Directs(C) :
                  /\ S' = [S EXCEPT !.q = Start(C, Q, win, clear, d)]
                  /\ ev' = [op |-> "begin"]
          \/ /\ Running(C, Q) /\ At(C, Q).op = "pass"
             /\ S' = [S EXCEPT !.q = Passed(C, Q)] /\ ev' = [op |-> "pass"]
          \/ /\ Running(C, Q) /\ At(C, Q).op = "soft"
             /\ S' = [S EXCEPT !.q = Next1(Q)] /\ ev' = [op |-> "soft"]
          \/ /\ Running(C, Q) /\ At(C, Q).op = "upd"
             /\ S' = [S EXCEPT !.q = Next1(Q), !.seen = Append(@, At(C, Q).who)] /\ ev' = [op |-> "upd"]
          \/ /\ Q.i > 0 /\ ~Running(C, Q) /\ ev' = [op |-> "done"]
             /\ S' = [S EXCEPT !.q = Finished(C, Q), !.seen = <<>>, !.steps = @ + 1]
Ended == Q.i > 0 /\ ~Running(C, Q)
Count(who) == Len(SelectSeq(S.seen, LAMBDA x : x = who))
TunedIsFixed == (C.alg = "dsnas" /\ Q.i > 0 /\ Tuning(C, Q.ep)) => \A g \in Groups(C) : Q.fix[g] # 0
NoArchOutside == (C.alg = "dsnas" /\ ~(C.dict = 1 /\ Searching(C, Q.ep))) => Count("a") = 0
ArchOnce == (C.alg \in {"dsnas", "darts"} /\ Ended /\ C.dict = 1 /\ (C.alg = "darts" \/ Searching(C, Q.ep))) => Count("a") = 1
WeightsAlways == Ended => Count("w") = IF C.alg = "dmcp" THEN Len(C.strat) ELSE 1
ArchEvery == (C.alg = "dmcp" /\ Ended) => Count("a") = IF Q.it > C.astart /\ Q.it % C.freq = 0 THEN 2 ELSE 0
Contributes == Running(C, Q) => \A n \in At(C, Q).from : n <= Q.n
OwnBatch == \A i \in 1..Len(Plan(C, Q)) : LET p == Plan(C, Q) IN
  (p[i].op = "upd" /\ p[i].who = "w" /\ C.alg = "darts") =>
     \A n \in p[i].from : LET ps == SelectSeq(p, LAMBDA x : x.op = "pass") IN ps[n].d = "s" /\ ps[n].home = 1
FixedStays == [][\A g \in Groups(C) : S.q.fix[g] # 0 => S'.q.fix[g] = S.q.fix[g]]_S
FixedIsWinner == [][\A g \in Groups(C) : (S.q.fix[g] = 0 /\ S'.q.fix[g] # 0) => S'.q.fix[g] = S'.q.win[g]]_S
=============================================================================
