-------------------------------- MODULE Quant --------------------------------
(* When a quantized network observes ranges, learns scales and follows        *)
(* statistics.                                                                *)
(* A run c: kind "qat" (observed ranges), "lsq" (learned scales) or "ptq"     *)
(*   (calibrated); epochs, iters (batches per epoch), dob / fbn: epochs       *)
(*   observing is off / norms are frozen from (0: never), vb / vi: validation *)
(*   from and every epoch, vn: validation batches, start: epoch the run       *)
(*   resumes after, steps / cn: calibration batches wanted / there are.       *)
(* State q: pc what is due next, ep epochs done, it batches done of the       *)
(*   epoch (or of calibrating, validating), seen: the batches ranges of the   *)
(*   trained mode come from, held: those of every other mode, bn batches the  *)
(*   norms follow, init the batches the scales are set from, upd how many     *)
(*   steps they learned, vals epochs validated.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
From(e, begin) == begin > 0 /\ e >= begin

\* ------------------------------------------------------------- the phases
\* in epoch e (from 1)
Observing(c, e) == c.kind = "qat" /\ ~From(e, c.dob)
Following(c, e) == ~From(e, c.fbn)
\* batch n of the whole training (from 1)
Estimating(c, n) == c.kind = "lsq" /\ n = 1
Learning(c, n) == c.kind = "lsq" /\ n > 1
Collects(c, e, n) == Observing(c, e) \/ Estimating(c, n)
Validates(c, e) == e >= c.vb /\ e % c.vi = 0
Batch(c, q) == q.ep * c.iters + q.it + 1

\* what a training of e epochs leaves
Trained(c, e) ==
  [seen |-> {n \in 1..(e * c.iters) : Collects(c, ((n - 1) \div c.iters) + 1, n)},
   bn |-> {n \in 1..(e * c.iters) : Following(c, ((n - 1) \div c.iters) + 1)},
   init |-> {n \in 1..(e * c.iters) : Estimating(c, n)},
   upd |-> Cardinality({n \in 1..(e * c.iters) : Learning(c, n)})]
Fresh(c) ==
  LET t == Trained(c, c.start)
  IN  [pc |-> IF c.kind = "ptq" THEN IF c.only = 1 THEN "val" ELSE "cal" ELSE "train", ep |-> c.start, it |-> 0, seen |-> t.seen, held |-> t.seen,
       bn |-> t.bn, init |-> t.init, upd |-> t.upd, vals |-> <<>>]

\* ------------------------------------------------------------- transitions
Due(c, q) == q.pc
Min(a, b) == IF a < b THEN a ELSE b
CalDue(c) == Min(c.steps, c.cn)
TrainStep(c, q) ==
  LET n == Batch(c, q) e == q.ep + 1
  IN  [q EXCEPT !.seen = IF Collects(c, e, n) THEN @ \cup {n} ELSE @,
                !.bn = IF Following(c, e) THEN @ \cup {n} ELSE @,
                !.init = IF Estimating(c, n) THEN @ \cup {n} ELSE @,
                !.upd = IF Learning(c, n) THEN @ + 1 ELSE @,
                !.it = @ + 1, !.pc = IF q.it + 1 = c.iters THEN "sync" ELSE "train"]
After(c, q) == IF q.ep = c.epochs \/ c.kind = "ptq" THEN "end" ELSE "train"
SyncStep(c, q) ==
  LET r == [q EXCEPT !.held = q.seen, !.ep = @ + 1, !.it = 0]
  IN  [r EXCEPT !.pc = IF Validates(c, r.ep) THEN "val" ELSE After(c, r)]
ValStep(c, q) == [q EXCEPT !.it = @ + 1, !.pc = IF q.it + 1 = c.vn THEN "orig" ELSE "val"]
OrigStep(c, q) ==
  LET r == [q EXCEPT !.it = @ + 1]
  IN  IF q.it + 1 = 2 * c.vn THEN [r EXCEPT !.it = 0, !.vals = Append(@, q.ep), !.pc = After(c, q)] ELSE r
CalStep(c, q) ==
  LET r == [q EXCEPT !.held = @ \cup {q.it + 1}, !.it = @ + 1]
  IN  IF q.it + 1 = CalDue(c) THEN [r EXCEPT !.it = 0, !.pc = "save"] ELSE r
SaveStep(c, q) == [q EXCEPT !.pc = "val"]

\* ------------------------------------------------------------- the machine
C == Configs[S.c]
Init == /\ S \in {[c |-> i, q |-> Fresh(Configs[i])] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Go(pc, r) == S.q.pc = pc /\ S' = [S EXCEPT !.q = r] /\ ev' = [op |-> pc]
Nxt == \/ Go("train", TrainStep(C, S.q)) \/ Go("sync", SyncStep(C, S.q)) \/ Go("val", ValStep(C, S.q))
       \/ Go("orig", OrigStep(C, S.q)) \/ Go("cal", CalStep(C, S.q)) \/ Go("save", SaveStep(C, S.q))

\* ------------------------------------------------------------- properties
Batches(c) == 1..(c.epochs * c.iters)
\* ranges come from the epochs before the configured one alone
RangesInTime == C.kind = "qat" /\ C.dob > 0 => \A n \in S.q.seen : n <= (C.dob - 1) * C.iters
RangesAll == C.kind = "qat" /\ C.dob = 0 => S.q.seen = 1..(S.q.ep * C.iters + IF S.q.pc = "train" THEN S.q.it ELSE IF S.q.pc = "sync" THEN C.iters ELSE 0)
NormsInTime == C.fbn > 0 => \A n \in S.q.bn : n <= (C.fbn - 1) * C.iters
InitOnce == C.kind = "lsq" => S.q.init \subseteq {1} /\ S.q.seen = S.q.init
            /\ (C.kind = "lsq" /\ S.q.upd > 0 => S.q.init = {1})
Calibrated == C.kind = "ptq" /\ C.only = 0 /\ S.q.pc \in {"save", "val", "orig", "end"} => S.q.held = 1..CalDue(C)
\* modes agree whenever an epoch is over
Agree == C.kind # "ptq" /\ S.q.pc \in {"val", "orig", "end"} => S.q.held = S.q.seen
ValObservesNothing == [][S.q.pc \in {"val", "orig"} => S'.q.seen = S.q.seen /\ S'.q.held = S.q.held /\ S'.q.bn = S.q.bn /\ S'.q.upd = S.q.upd]_Vars
\* a resumed training ends where an uninterrupted one does
SameEnd == S.q.pc = "end" /\ C.kind # "ptq" =>
  LET t == Trained(C, C.epochs) IN S.q.seen = t.seen /\ S.q.bn = t.bn /\ S.q.init = t.init /\ S.q.upd = t.upd
ValDue == S.q.pc = "end" /\ C.kind # "ptq" => \A e \in (C.start + 1)..C.epochs : Validates(C, e) = (\E i \in 1..Len(S.q.vals) : S.q.vals[i] = e)
=============================================================================
