-------------------------------- MODULE Sandwich -------------------------------
(* Training several widths of one network in each step.                       *)
(* A configuration c: kinds (seq of [pre, sub, hard, soft]: the prefix of its *)
(*   losses, its widths (<<>>: sampled), whether it learns from the labels    *)
(*   (hard) and from the first kind of this step (soft)), cand (candidate     *)
(*   widths of each element), acc how many contributions make an update,      *)
(*   first / last: iterations the run begins with and ends before.            *)
(* State q: it the iteration, k the kind at work, cnt the contributions       *)
(*   counted, n the forward passes so far, top the pass of the first kind of  *)
(*   this step, pend contributions since the last update [n, f] (f: by how    *)
(*   much it is divided), ls losses of this step [pre, key, n, t], pool the   *)
(*   sampled widths which were not trained yet.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
K(c) == Len(c.kinds)
Begin(c) == [it |-> c.first, k |-> 1, cnt |-> c.first * K(c), n |-> 0, top |-> 0, pend |-> <<>>, ls |-> <<>>, pool |-> <<>>]
Max(c) == c.last * K(c)
Rest(c) == Max(c) % c.acc
Factor(c, cnt) == IF c.acc = 1 THEN 1 ELSE IF cnt < Max(c) - Rest(c) THEN c.acc ELSE Rest(c)
Updates(c, cnt) == cnt % c.acc = 0 \/ cnt = Max(c)
Kind(c, q) == c.kinds[q.k]
Training(c, q) == q.it < c.last /\ q.k <= K(c)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Legal(c, sub) == Len(sub) = Len(c.cand) /\ \A i \in 1..Len(sub) : \E j \in 1..Len(c.cand[i]) : c.cand[i][j] = sub[i]
Sampled(q, sub) == [q EXCEPT !.pool = Append(@, sub)]
Wide(c, q, sub) == IF Kind(c, q).sub # <<>> THEN sub = Kind(c, q).sub
                   ELSE \E i \in 1..Len(q.pool) : q.pool[i] = sub
Forward(c, q, sub) ==
  [q EXCEPT !.n = @ + 1, !.top = IF q.k = 1 THEN q.n + 1 ELSE @,
            !.pool = IF Kind(c, q).sub # <<>> THEN @ ELSE Without(@, CHOOSE i \in 1..Len(@) : @[i] = sub)]
\* the losses of the pass just made
Losses(c, q) ==
  LET z == Kind(c, q) IN
  (IF z.hard = 1 THEN <<[pre |-> z.pre, key |-> "loss", n |-> q.n, t |-> 0]>> ELSE <<>>) \o
  (IF z.soft = 1 THEN <<[pre |-> z.pre, key |-> "loss_soft", n |-> q.n, t |-> q.top]>> ELSE <<>>)
Weight(c, q) == Kind(c, q).hard + Kind(c, q).soft
Backward(c, q) ==
  [q EXCEPT !.pend = Append(@, [n |-> q.n, f |-> Factor(c, q.cnt), w |-> Weight(c, q)]), !.cnt = @ + 1,
            !.ls = @ \o Losses(c, q), !.k = @ + 1]
Updated(q) == [q EXCEPT !.pend = <<>>]
Finished(q) == [q EXCEPT !.it = @ + 1, !.k = 1, !.ls = <<>>, !.pool = <<>>]
\* a step that fails is not finished; what was contributed is kept
Failed(q) == [q EXCEPT !.it = @ + 1, !.k = 1, !.ls = <<>>, !.pool = <<>>]

\* ------------------------------------------------------------- the machine
C == Configs[S.c]
Q == S.q
St(q, ph) == S' = [S EXCEPT !.q = q, !.ph = ph]
Init == /\ S \in {[c |-> i, q |-> Begin(Configs[i]), ph |-> "f", seen |-> <<>>, last |-> <<>>, fails |-> 0, ups |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Subs(c) == {s \in UNION {[1..Len(c.cand) -> 1..3]} : Legal(c, s)}
Nxt ==
  \/ /\ S.ph = "f" /\ Training(C, Q) /\ Kind(C, Q).sub = <<>> /\ Q.pool = <<>>
     /\ \E s \in Subs(C) : St(Sampled(Q, s), "f") /\ ev' = [op |-> "sample"]
  \/ /\ S.ph = "f" /\ Training(C, Q)
     /\ \E s \in Subs(C) : /\ Wide(C, Q, s)
                           /\ S' = [S EXCEPT !.q = Forward(C, Q, s), !.ph = "b", !.seen = Append(@, s)]
     /\ ev' = [op |-> "fwd"]
  \/ /\ S.ph = "b" /\ ev' = [op |-> "bwd"]
     /\ LET r == Backward(C, Q) IN St(r, IF Updates(C, r.cnt) THEN "u" ELSE "f")
  \/ /\ S.ph = "u" /\ ev' = [op |-> "upd"]
     /\ S' = [S EXCEPT !.last = Q.pend, !.q = Updated(Q), !.ph = "f", !.ups = @ + 1]
  \/ /\ S.ph = "f" /\ Q.it < C.last /\ Q.k > K(C) /\ ev' = [op |-> "done"]
     /\ S' = [S EXCEPT !.q = Finished(Q), !.seen = <<>>]
  \/ /\ S.ph \in {"f", "b"} /\ S.fails < C.fails /\ Training(C, Q) /\ Q.pool = <<>> /\ ev' = [op |-> "fail"]
     /\ S' = [S EXCEPT !.q = Failed(Q), !.ph = "f", !.seen = <<>>, !.fails = @ + 1]
\* every kind is trained once, in order
Once == (Q.it < C.last /\ Q.k > K(C) /\ S.ph = "f") =>
          /\ Len(S.seen) = K(C)
          /\ \A i \in 1..K(C) : C.kinds[i].sub # <<>> => S.seen[i] = C.kinds[i].sub
\* an update averages the contributions since the update before it, each once
Aligned == (C.first * K(C)) % C.acc = 0
Average == (S.ph = "u" /\ S.fails = 0 /\ Aligned) => \A i \in 1..Len(Q.pend) : Q.pend[i].f = Len(Q.pend)
Disjoint == S.ph = "u" => \A i \in 1..Len(Q.pend) : \A j \in 1..Len(S.last) : Q.pend[i].n # S.last[j].n
\* nothing is lost at the end of the run
Nothing == (Q.it = C.last /\ S.fails = 0) => Q.pend = <<>>
\* names are distinct and what is learned from is of this step
Named == \A i, j \in 1..Len(Q.ls) : i # j => <<Q.ls[i].pre, Q.ls[i].key>> # <<Q.ls[j].pre, Q.ls[j].key>>
Fresh == \A i \in 1..Len(Q.ls) : Q.ls[i].t = 0 \/ (Q.ls[i].t <= Q.ls[i].n /\ Q.ls[i].t = Q.top /\ Q.top > Q.n - K(C))
=============================================================================
