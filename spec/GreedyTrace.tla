----------------------------- MODULE GreedyTrace -----------------------------
(* Histories of real greedy-sampling training.  par: the search space as in   *)
(* Evolution (n, cost, par, base, pbase, lo, hi), pool (most candidates),     *)
(* draws (per batch), k (of the best list), sched (linear / consine), a, b    *)
(* (its interval), p0, p1 (first and last probability in hundredths).         *)
(* Events:                                                                    *)
(*   sample [s]       drawn from the supernet                                 *)
(*   eval [s, x, all] the active subnet was scored x on all the data          *)
(*   train [it, s, mode, pool, p]  the supernet is trained with s (mode 1:    *)
(*                    training), the pool with scores, the probability        *)
(*                    in units of 10^-6                                       *)
(*   prob [it, p]     the schedule asked directly                             *)
(*   saved [pool]     the pool written at the end                             *)
EXTENDS TraceCheck, FiniteSets
E == INSTANCE Evolution WITH Configs <- <<>>, S <- 0, ev <- 0
G == INSTANCE Greedy WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [drawn |-> <<>>, evals |-> <<>>, q |-> G!Start, last |-> -1]
Sub(q) == [i \in 1..Len(q) |-> q[i].s]
Legal(par, q) == SelectSeq(q, LAMBDA s : E!Fits(par, s))
Abs(x) == IF x < 0 THEN -x ELSE x
ProbBad(par, it, p) ==
  IF it <= par.a /\ it < par.b THEN (IF p # par.p0 * 10000 THEN "before its interval the probability is not the first one" ELSE "")
  ELSE IF it >= par.b /\ it # par.a THEN (IF p # par.p1 * 10000 THEN "after its interval the probability is not the last one" ELSE "")
  ELSE IF it = par.a /\ par.a = par.b THEN ""
  ELSE IF par.sched = "linear"
  THEN LET num == par.p0 * (par.b - par.a) + (par.p1 - par.p0) * (it - par.a)
       IN  IF Abs(p * (par.b - par.a) - 10000 * num) > 2 * (par.b - par.a) THEN "the probability is not on the line" ELSE ""
  ELSE IF p < par.p0 * 10000 \/ p > par.p1 * 10000 THEN "the probability leaves its range" ELSE ""
BatchBad(par, s, e) ==
  LET es == Sub(s.evals) old == Sub(s.q.pool) leg == Legal(par, s.drawn)
      new == Len(es) - Len(old)
      fromPool == par.draws - Len(s.drawn)
  IN CASE \E x \in E!Range(old) : E!Count(es, x) < E!Count(old, x) -> "a candidate of the pool is not scored again"
       [] fromPool < 0 -> "too many subnets are drawn"
       [] new # Len(leg) + fromPool -> "the batch has not the configured size"
       [] \E x \in E!Range(es) : ~E!Fits(par, x) -> "a candidate violates the constraints"
       [] \E x \in E!Range(leg) : E!Count(es, x) < E!Count(leg, x) + E!Count(old, x) -> "a drawn subnet is not scored"
       [] \E x \in E!Range(es) : E!Count(es, x) > E!Count(leg, x) + E!Count(old, x) /\ x \notin E!Range(old) -> "a candidate comes from nowhere"
       [] (e.p = 0 \/ old = <<>>) /\ fromPool > 0 -> "candidates are taken from the pool although the probability is 0"
       [] e.p = 1000000 /\ old # <<>> /\ Len(s.drawn) > 0 -> "candidates are drawn although the probability is 1"
       [] ~E!IsBest(e.pool, s.evals, par.pool) -> "the pool does not hold the best candidates in order of score"
       [] OTHER -> ProbBad(par, e.it, e.p)
TrainBad(par, s, e) ==
  IF G!Due(s.q)
  THEN LET b == BatchBad(par, s, e)
       IN IF b # "" THEN b
          ELSE IF ~G!CanTrain(G!Batch(s.q, e.pool, par.k), e.s) THEN "the trained subnet is not the next best one" ELSE ""
  ELSE IF s.evals # <<>> THEN "candidates are picked before the best list is used up"
  ELSE IF e.pool # s.q.pool THEN "the pool changed between two batches"
  ELSE IF ~G!CanTrain(s.q, e.s) THEN "the trained subnet is not the next best one" ELSE ""
TStep(par, s, e) ==
  CASE e.op = "sample" -> [st |-> [s EXCEPT !.drawn = Append(@, e.s)], bad |-> ""]
    [] e.op = "eval" -> [st |-> [s EXCEPT !.evals = Append(@, [s |-> e.s, x |-> e.x])],
                         bad |-> IF e.all = 1 THEN "" ELSE "a candidate is not scored on all the data"]
    [] e.op = "train" ->
       LET b == IF e.mode = 0 THEN "the supernet is not trained in training mode" ELSE TrainBad(par, s, e)
       IN  [st |-> IF b # "" THEN s
                   ELSE [s EXCEPT !.drawn = <<>>, !.evals = <<>>,
                                  !.q = G!Train(IF G!Due(s.q) THEN G!Batch(s.q, e.pool, par.k) ELSE s.q, e.s)],
            bad |-> b]
    [] e.op = "prob" -> [st |-> [s EXCEPT !.last = e.p],
                         bad |-> LET b == ProbBad(par, e.it, e.p)
                                 IN  IF b # "" THEN b ELSE IF e.p < s.last THEN "the probability goes back" ELSE ""]
    [] e.op = "saved" -> [st |-> s, bad |-> IF e.pool # s.q.pool THEN "the saved candidates are not the pool" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
