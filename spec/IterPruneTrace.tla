--------------------------- MODULE IterPruneTrace ---------------------------
(* Schedules of real iterative pruning algorithms: par is a configuration;    *)
(* events: train [it, w], eval [w], text.                                     *)
EXTENDS TraceCheck
I == INSTANCE IterPrune WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [w |-> I!Start(par)]
\* the straight line is followed in floating point numbers: a count that lies
\* exactly on it may come out one lower before the last step
Low(c, it, j) == LET u == c.units[j] k == I!Step(c, it) T == I!Times(c) IN
  IF c.mode = "number" /\ c.linear = 1 /\ k < T /\ u.k # "none" /\ (u.s * T - (u.s - I!Goal(u)) * k) % T = 0
  THEN I!MinW(u.n, I!MakeDiv(I!Line(c, u, k, T) - 1, c.d, c.mn, c.rt)) ELSE I!Want(c, u, k, T)
TStep(par, s, e) ==
  CASE e.op = "train" ->
       LET x == I!Trained(par, s.w, e.it)
       IN  [st |-> [s EXCEPT !.w = e.w],
            bad |-> IF e.w = x THEN ""
                    ELSE IF ~I!Scheduled(par, e.it) THEN "widths changed at an iteration that is not scheduled"
                    ELSE IF \A j \in 1..Len(x) : e.w[j] = x[j] \/ e.w[j] = Low(par, e.it, j) THEN ""
                    ELSE IF I!Step(par, e.it) = I!Times(par) THEN "the last step does not reach the target"
                    ELSE "the widths are not the scheduled ones"]
    [] e.op = "eval" -> [st |-> s, bad |-> IF e.w # s.w THEN "evaluation changed the widths" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
