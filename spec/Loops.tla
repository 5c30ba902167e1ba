-------------------------------- MODULE Loops --------------------------------
(* What validation and combined training loops feed to which network.         *)
(* A validation c: kinds (seq of [pre, role, sub]: prefix of its metrics,     *)
(*   "student" / "teacher", the widths it is to have, <<>> any), nb batches   *)
(*   (sequences of samples), cal (calibration batches of samples) and n (how  *)
(*   many samples calibrate; 0: no calibration), fresh: the network is told   *)
(*   its widths by the loop.                                                  *)
(* State q: k kind at work, left samples to calibrate with, ci calibration    *)
(*   batches used, used: those used, b batches evaluated, sub widths seen.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
Take(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
Min(a, b) == IF a < b THEN a ELSE b
Fresh(c, k) == [k |-> k, left |-> c.n, ci |-> 0, used |-> <<>>, b |-> 0, sub |-> <<>>]
Begin(c) == Fresh(c, 1)
Done(c, q) == q.k > Len(c.kinds)
Calibrating(c, q) == ~Done(c, q) /\ q.left > 0 /\ q.ci < Len(c.cal)
Evaluating(c, q) == ~Done(c, q) /\ ~Calibrating(c, q) /\ q.b < Len(c.nb)
\* the samples of the next forward pass
CalBatch(c, q) == Take(c.cal[q.ci + 1], q.left)
ValBatch(c, q) == c.nb[q.b + 1]
Wide(c, q, sub) == /\ (q.sub # <<>> => sub = q.sub)
                   /\ (c.kinds[q.k].sub # <<>> => sub = c.kinds[q.k].sub)
Calibrated(c, q, sub) == [q EXCEPT !.left = @ - Len(CalBatch(c, q)), !.ci = @ + 1, !.used = Append(@, CalBatch(c, q)), !.sub = sub]
Evaluated(c, q, sub) ==
  LET r == [q EXCEPT !.b = @ + 1, !.sub = sub]
  IN  IF r.b = Len(c.nb) THEN Fresh(c, q.k + 1) ELSE r

\* ---------------------------------------------------- calibrated statistics
\* channel j of the layer sees the sample v as the constant image j * v of
\* px pixels; in thousandths
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Count(used) == SumSeq([i \in 1..Len(used) |-> Len(used[i])])
Mean(used, j) == (1000 * j * SumSeq([i \in 1..Len(used) |-> SumSeq(used[i])])) \div Count(used)
VarOf(b, j, px) ==
  LET n == Len(b) s == SumSeq(b) q == SumSeq([i \in 1..n |-> b[i] * b[i]])
  IN  (1000 * px * j * j * (n * q - s * s)) \div (px * n - 1)
Var(used, j, px) == SumSeq([i \in 1..Len(used) |-> VarOf(used[i], j, px)]) \div Count(used)

\* ------------------------------------------------------- combined loaders
\* lens: batches per loader; a pass ends with the shortest
PassLen(lens) == LET m == CHOOSE m \in {lens[i] : i \in 1..Len(lens)} : \A i \in 1..Len(lens) : m <= lens[i] IN m
Pair(lens, t) == [i \in 1..Len(lens) |-> (t % PassLen(lens)) + 1]
Pass(lens, t) == t \div PassLen(lens)

\* ------------------------------------------------------------- the machine
C == Configs[S.c]
Init == /\ S \in {[c |-> i, q |-> Begin(Configs[i]), seen |-> {}, t |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Subs == {<<1>>, <<2>>}
Nxt == \/ /\ Calibrating(C, S.q)
          /\ \E sub \in Subs : Wide(C, S.q, sub) /\ S' = [S EXCEPT !.q = Calibrated(C, @, sub), !.t = @ + 1]
          /\ ev' = [op |-> "cal"]
       \/ /\ Evaluating(C, S.q)
          /\ \E sub \in Subs : /\ Wide(C, S.q, sub)
                               /\ S' = [S EXCEPT !.q = Evaluated(C, @, sub), !.t = @ + 1,
                                                 !.seen = @ \cup {<<S.q.k, S.q.b + 1, sub>>}]
          /\ ev' = [op |-> "val"]
\* in the end every kind was evaluated on every batch, with one width
Complete == Done(C, S.q) =>
  \A k \in 1..Len(C.kinds) : \E sub \in Subs : \A b \in 1..Len(C.nb) : \A s \in Subs : (<<k, b, s>> \in S.seen) = (s = sub)
Enough == \A k \in 1..Len(C.kinds) : (Evaluating(C, S.q) /\ C.n > 0) =>
            Count(S.q.used) = Min(C.n, Count(C.cal))
Ends == S.t <= Len(C.kinds) * (Len(C.nb) + Len(C.cal))
InOrder == \A t \in 0..8 : LET p == Pair(C.lens, t) IN
             /\ \A i, j \in 1..Len(C.lens) : p[i] = p[j]
             /\ \A i \in 1..Len(C.lens) : p[i] <= C.lens[i]
             /\ Pass(C.lens, t) * PassLen(C.lens) + p[1] = t + 1
=============================================================================
