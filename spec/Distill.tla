-------------------------------- MODULE Distill --------------------------------
(* The passes, losses and updates of distillation training steps.             *)
(* A configuration c: alg "single" / "fpn" / "self" / "byot" / "free" /       *)
(*   "dafl"; tt, ne: the teacher is trained / its norms stay in evaluation;   *)
(*   st, cs: the student is trained / its own loss counts; stop the epoch     *)
(*   distillation stops at (-1: never), first epoch, iters per epoch; m how   *)
(*   often a pass asks for a delivered value; names, gnames: losses of the    *)
(*   student and of the generator, [name, s, t] each with two operands        *)
(*   [role, place, conn]: what role produced at that place, after connector   *)
(*   conn; nt teachers, sit student iterations, sfirst student before         *)
(*   generator.                                                               *)
(* A step is a plan of items [kind, role, grad, img, set]: "pass" a forward   *)
(*   pass of role on img ("data", "new" or the "same" as before), "loss" the  *)
(*   losses of set ("d" / "g") computed, "upd" an update of role; a pass of   *)
(*   set "g" is to train the generator of the images.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
Item(k, r, g, i, s) == [kind |-> k, role |-> r, grad |-> g, img |-> i, set |-> s]
Or(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE 0
Free(c) == c.alg \in {"free", "dafl"}
Solo(c) == c.alg \in {"self", "byot"}
Teacher(i) == <<"T1", "T2", "T3">>[i]
Teachers(c, g) == [i \in 1..c.nt |-> Item("pass", Teacher(i), g, "same", "")]
\* the student (or generator) on images of its own
Group(c, img, g, set) == <<Item("pass", "S", 1, img, set)>> \o Teachers(c, g) \o <<Item("loss", "", 1, "", set)>>
Upd(r) == <<Item("upd", r, 1, "", "")>>
RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE q \o Times(q, n - 1)
Stopped(c, ep) == c.stop >= 0 /\ ep >= c.stop
Plan(c, ep) ==
  CASE Solo(c) -> <<Item("pass", "S", Or(c.st, c.cs), "data", ""), Item("loss", "", 1, "", "d")>> \o Upd("S")
    [] c.alg \in {"single", "fpn"} ->
         <<Item("pass", "T1", c.tt, "data", ""), Item("pass", "S", IF c.alg = "fpn" THEN 1 ELSE Or(c.st, c.cs), "data", "")>>
           \o (IF Stopped(c, ep) THEN <<>> ELSE <<Item("loss", "", 1, "", "d")>>) \o Upd("S")
    [] c.alg = "free" ->
         LET s == Times(Group(c, "new", 0, "d") \o Upd("S"), c.sit) g == Group(c, "new", 1, "g") \o Upd("G")
         IN  IF c.sfirst = 1 THEN s \o g ELSE g \o s
    [] OTHER -> Group(c, "new", 1, "g") \o Group(c, "same", 0, "d") \o Upd("G") \o Upd("S")
Names(c, set) == IF set = "d" THEN c.names ELSE c.gnames
Roles == {"S", "T1", "T2", "T3"}
Begin(c) == [ep |-> c.first, it |-> 0, i |-> 1, n |-> 0, last |-> [r \in Roles |-> 0], img |-> 0, cnt |-> 0,
             kept |-> <<>>, left |-> {}, ls |-> <<>>, ds |-> 0, gi |-> 0]
At(c, q) == Plan(c, q.ep)[q.i]
Running(c, q) == q.i <= Len(Plan(c, q.ep))
Indices(c, set) == 1..Len(Names(c, set))
Enter(c, q) == IF ~Running(c, q) \/ At(c, q).kind # "loss" THEN q ELSE [q EXCEPT !.left = Indices(c, At(c, q).set)]
\* on to the next item; losses which are not there need not be computed
RECURSIVE Next1(_, _)
Next1(c, q) == LET r == Enter(c, [q EXCEPT !.i = @ + 1])
               IN  IF Running(c, r) /\ At(c, r).kind = "loss" /\ r.left = {} THEN Next1(c, r) ELSE r
Start(c, q) == [q EXCEPT !.i = 1, !.ls = <<>>, !.last = [r \in Roles |-> 0]]
Own(c, r, q) == \* whether the loss of the pass itself is reported, and how
  IF r = "S" /\ ~Free(c) /\ (c.cs = 1 \/ c.alg = "fpn") THEN "student."
  ELSE IF r = "T1" /\ c.alg = "single" /\ c.tt = 1 THEN "teacher." ELSE ""
Delivers(c) == ~Solo(c) /\ ~Free(c)
Fresh(q, k) == [j \in 1..k |-> q.cnt + j]
Asked(c, q, role) == IF Delivers(c) /\ role = "S" THEN q.kept ELSE Fresh(q, c.m)
Pass(c, q) ==
  LET a == At(c, q) n == q.n + 1 own == Own(c, a.role, q) given == Delivers(c) /\ a.role = "S"
  IN  Next1(c, [q EXCEPT !.n = n, !.last[a.role] = n, !.img = IF a.img = "new" THEN @ + 1 ELSE @,
                         !.cnt = IF given THEN @ ELSE @ + c.m,
                         !.kept = IF ~Delivers(c) THEN @ ELSE IF given THEN <<>> ELSE Fresh(q, c.m),
                         !.ls = IF own = "" THEN @ ELSE Append(@, [pre |-> own, key |-> "loss_own", v |-> n])])
Code(c, q, x) == LET r == IF Solo(c) THEN "S" ELSE x.role IN 100 * q.last[r] + 10 * x.conn + x.place
Pre(set) == IF set = "d" THEN "distill." ELSE "generator."
Lossed(c, q, j) ==
  LET set == At(c, q).set x == Names(c, set)[j]
      r == [q EXCEPT !.left = @ \ {j}, !.ls = Append(@, [pre |-> Pre(set), key |-> x.name, v |-> Code(c, q, x.s)]),
                     !.ds = IF set = "d" THEN q.last["S"] ELSE @, !.gi = IF set = "g" THEN q.img ELSE @]
  IN  IF r.left = {} THEN Next1(c, r) ELSE r
Updated(c, q) == Next1(c, q)
\* of several student iterations the last is reported
Later(q, i) == \A j \in (i + 1)..Len(q.ls) : <<q.ls[j].pre, q.ls[j].key>> # <<q.ls[i].pre, q.ls[i].key>>
Reported(q) == SelectSeq([i \in 1..Len(q.ls) |-> [x |-> q.ls[i], ok |-> Later(q, i)]], LAMBDA y : y.ok)
Finished(c, q) == LET e == q.it + 1 >= c.iters IN
  [Start(c, q) EXCEPT !.it = IF e THEN 0 ELSE @ + 1, !.ep = IF e THEN @ + 1 ELSE @]

\* ------------------------------------------------------------- the machine
C == Configs[S.c]
Q == S.q
Init == /\ S \in {[c |-> i, q |-> Begin(Configs[i]), seen |-> <<>>, steps |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Go(q, x) == S' = [S EXCEPT !.q = q, !.seen = Append(@, x)]
Nxt == /\ S.steps < 4
       /\ \/ /\ Running(C, Q) /\ At(C, Q).kind = "pass" /\ Go(Pass(C, Q), At(C, Q).role) /\ ev' = [op |-> "pass"]
          \/ /\ Running(C, Q) /\ At(C, Q).kind = "loss"
             /\ \E j \in Q.left : Go(Lossed(C, Q, j), "L") /\ ev' = [op |-> "loss"]
          \/ /\ Running(C, Q) /\ At(C, Q).kind = "upd" /\ Go(Updated(C, Q), "U" \o At(C, Q).role) /\ ev' = [op |-> "upd"]
          \/ /\ ~Running(C, Q) /\ ev' = [op |-> "done"]
             /\ S' = [S EXCEPT !.q = Finished(C, Q), !.seen = <<>>, !.steps = @ + 1]
\* every loss is computed from passes of this step, which were made before
FreshLoss == \A i \in 1..Len(Q.ls) : Q.ls[i].key # "loss_own" =>
               \E x \in 1..Len(S.seen) : S.seen[x] \in Roles /\ Q.ls[i].v \div 100 > Q.n - Len(SelectSeq(S.seen, LAMBDA y : y \in Roles))
Usable == \A set \in {"d", "g"} : (Running(C, Q) /\ At(C, Q).kind = "loss" /\ At(C, Q).set = set) =>
            \A j \in Q.left : LET x == Names(C, set)[j] IN Code(C, Q, x.s) >= 100 /\ Code(C, Q, x.t) >= 100
TeacherFirst == (C.alg \in {"single", "fpn"} /\ S.seen # <<>>) => S.seen[1] = "T1"
StopsThen == (C.alg \in {"single", "fpn"} /\ Stopped(C, Q.ep)) => \A i \in 1..Len(Q.ls) : Q.ls[i].pre # "distill."
Given == (Running(C, Q) /\ At(C, Q).kind = "pass" /\ At(C, Q).role = "S" /\ Delivers(C)) => Len(Q.kept) = C.m
AllNamed == (~Running(C, Q) /\ ~(C.stop >= 0 /\ Q.ep >= C.stop)) =>
  \A j \in 1..Len(C.names) : \E i \in 1..Len(Reported(Q)) : Reported(Q)[i].x.key = C.names[j].name /\ Reported(Q)[i].x.pre = "distill."
=============================================================================
