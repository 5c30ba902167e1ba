--------------------------------- MODULE Dumps ---------------------------------
(* When a training run writes down subnets and estimates its resources.       *)
(* A configuration c: by "epoch" / "iter", n the interval (<= 0: never),      *)
(*   iters per epoch and epochs in total (of an iteration-based run one epoch *)
(*   of all iterations), begin the completed epochs it is resumed from, last: *)
(*   the end is written too, keep how many are kept (<= 0: all); vi the       *)
(*   validation interval (0: never; the end is validated too; of an iteration-based run in iterations), *)
(*   eby, en: estimates, vb batches per validation.                           *)
(* State: ep, it completed epochs and iterations, b iterations in this epoch, *)
(* files the moments on disk, est the number of estimates, val in validation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
Due(n, k) == n > 0 /\ k % n = 0
\* iterations before epoch e ends
Before(c) == c.begin * c.iters
Begin(c) == [ep |-> c.begin, it |-> c.begin * c.iters, b |-> 0, files |-> <<>>, est |-> 0, val |-> 0, end |-> 0]
Cut(c, q) == IF c.keep > 0 /\ Len(q) > c.keep THEN SubSeq(q, Len(q) - c.keep + 1, Len(q)) ELSE q
Add(c, q, k) == Cut(c, Append(SelectSeq(q, LAMBDA x : x # k), k))
\* an epoch-based run has epochs; in an iteration-based one every iteration may be followed by a validation
\* validation: by its interval and at the end
Checked(c, k, end) == Due(c.vi, k) \/ (c.vi > 0 /\ k = end)
Epochs(c) == c.loop = "epoch"
CanIter(c, q) == q.val = 0 /\ q.end = 0 /\ q.b < c.iters /\ q.ep < c.epochs
LastIter(c, q) == q.it + 1 = c.epochs * c.iters
Iter(c, q) ==
  LET k == q.it + 1 d == c.by = "iter" /\ (Due(c.n, k) \/ (c.last = 1 /\ LastIter(c, q)))
      v == ~Epochs(c) /\ Checked(c, k, c.epochs * c.iters)
  IN  [q EXCEPT !.it = k, !.b = @ + 1, !.files = IF d THEN Add(c, @, k) ELSE @, !.val = IF v THEN 1 ELSE 0]
CanEpoch(c, q) == Epochs(c) /\ q.val = 0 /\ q.b = c.iters
Epoch(c, q) ==
  LET k == q.ep + 1 d == c.by = "epoch" /\ (Due(c.n, k) \/ (c.last = 1 /\ k = c.epochs))
  IN  [q EXCEPT !.ep = k, !.b = 0, !.files = IF d THEN Add(c, @, k) ELSE @, !.val = IF Checked(c, k, c.epochs) THEN 1 ELSE 0]
\* one validation estimates once per epoch, or with every batch
Estimates(c, q) == IF c.eby = "epoch" THEN (IF Due(c.en, q.ep) THEN 1 ELSE 0) ELSE (IF Due(c.en, q.it) THEN c.vb ELSE 0)
CanVal(c, q) == q.val = 1
Val(c, q) == [q EXCEPT !.est = @ + Estimates(c, q), !.val = 0]
Over(c, q) == q.val = 0 /\ (IF Epochs(c) THEN q.ep = c.epochs ELSE q.it = c.epochs * c.iters)
\* --------------------------------------------------------------- the machine
At(w) == S.w = w
Init == \E w \in 1..Len(Configs) : S = [w |-> w, q |-> Begin(Configs[w])] /\ ev = ""
Nxt == LET c == Configs[S.w] q == S.q IN
  \/ CanIter(c, q) /\ S' = [S EXCEPT !.q = Iter(c, q)] /\ ev' = "iter"
  \/ CanEpoch(c, q) /\ S' = [S EXCEPT !.q = Epoch(c, q)] /\ ev' = "epoch"
  \/ CanVal(c, q) /\ S' = [S EXCEPT !.q = Val(c, q)] /\ ev' = "val"
\* ------------------------------------------------------------ its properties
Now(c, q) == IF c.by = "epoch" THEN q.ep ELSE q.it
First(c) == IF c.by = "epoch" THEN c.begin ELSE Before(c)
Whole(c) == IF c.by = "epoch" THEN c.epochs ELSE c.epochs * c.iters
Moments(c, q) == {k \in (First(c) + 1)..Now(c, q) : Due(c.n, k) \/ (c.last = 1 /\ k = Whole(c))}
Set(q) == {q[i] : i \in 1..Len(q)}
Newest(A, n) == {k \in A : Cardinality({j \in A : j > k}) < n}
OnSchedule == LET c == Configs[S.w] IN Set(S.q.files) = IF c.keep > 0 THEN Newest(Moments(c, S.q), c.keep) ELSE Moments(c, S.q)
Bounded == LET c == Configs[S.w] IN c.keep > 0 => Len(S.q.files) <= c.keep
EndWritten == LET c == Configs[S.w] IN (Over(c, S.q) /\ c.last = 1 /\ (c.by = "iter" \/ Epochs(c))) => Whole(c) \in Set(S.q.files)
Counted == LET c == Configs[S.w] q == S.q
               vals == IF Epochs(c) THEN {k \in (c.begin + 1)..q.ep : Checked(c, k, c.epochs)} ELSE {k \in (Before(c) + 1)..q.it : Checked(c, k, c.epochs * c.iters)}
               ok(k) == IF c.eby = "epoch" THEN Due(c.en, IF Epochs(c) THEN k ELSE c.begin) ELSE Due(c.en, IF Epochs(c) THEN k * c.iters ELSE k)
               m == Cardinality({k \in vals : ok(k)})
           IN  q.val = 0 => q.est = IF c.eby = "epoch" THEN m ELSE m * c.vb
Ends == <>[](Over(Configs[S.w], S.q))
================================================================================
