------------------------------- MODULE Greedy -------------------------------
(* Greedy sampling: a pool of scored candidates [s, x]; of every batch the k  *)
(* best are trained one after the other.  left: members of the pool that may  *)
(* still be trained, todo: how many of them.                                  *)
(* Configuration for the model: space (number of subnets), k, size, draws,    *)
(* sc (score per subnet), trains.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
Start == [pool |-> <<>>, left |-> <<>>, todo |-> 0]
Due(q) == q.todo = 0
Batch(q, pool, k) == [pool |-> pool, left |-> pool, todo |-> IF Len(pool) < k THEN Len(pool) ELSE k]
\* s is one of the best that have not been trained yet
CanTrain(q, s) == q.todo > 0 /\ \E i \in 1..Len(q.left) : q.left[i].s = s /\ \A j \in 1..Len(q.left) : q.left[j].x <= q.left[i].x
Drop(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]
Train(q, s) ==
  LET i == CHOOSE i \in 1..Len(q.left) : q.left[i].s = s /\ \A j \in 1..Len(q.left) : q.left[j].x <= q.left[i].x
  IN  [q EXCEPT !.left = Drop(@, i), !.todo = @ - 1]

\* ------------------------------------------------------------- the machine
RECURSIVE Best(_, _)
Best(all, k) ==
  IF k = 0 \/ all = <<>> THEN <<>>
  ELSE LET i == CHOOSE i \in 1..Len(all) : \A j \in 1..Len(all) : all[i].x > all[j].x \/ (all[i].x = all[j].x /\ i <= j)
       IN  <<all[i]>> \o Best(Drop(all, i), k - 1)
Init == /\ S \in {[c |-> i, q |-> Start, hist |-> <<>>, n |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
C == Configs[S.c]
DoBatch ==
  /\ Due(S.q) /\ S.n < C.trains
  /\ \E m \in 1..C.draws : \E new \in [1..m -> 1..C.space] :
       LET all == S.q.pool \o [i \in 1..m |-> [s |-> new[i], x |-> C.sc[new[i]]]]
       IN  S' = [S EXCEPT !.q = Batch(S.q, Best(all, C.size), C.k), !.hist = <<>>]
  /\ ev' = [op |-> "batch"]
DoTrain ==
  /\ S.n < C.trains
  /\ \E i \in 1..Len(S.q.left) : LET s == S.q.left[i].s IN
       /\ CanTrain(S.q, s)
       /\ S' = [S EXCEPT !.q = Train(S.q, s), !.hist = Append(@, s), !.n = @ + 1]
       /\ ev' = [op |-> "train", s |-> s]
Nxt == DoBatch \/ DoTrain
Sorted == \A i \in 1..(Len(S.q.pool) - 1) : S.q.pool[i].x >= S.q.pool[i + 1].x
Small == Len(S.q.pool) <= C.size
Descending == \A i \in 1..(Len(S.hist) - 1) : C.sc[S.hist[i]] >= C.sc[S.hist[i + 1]]
\* when the best list is used up, exactly the k best of the pool were trained
Once == (Due(S.q) /\ S.q.pool # <<>>) =>
  LET k == IF Len(S.q.pool) < C.k THEN Len(S.q.pool) ELSE C.k
  IN  [i \in 1..Len(S.hist) |-> C.sc[S.hist[i]]] = [i \in 1..k |-> S.q.pool[i].x]
=============================================================================
