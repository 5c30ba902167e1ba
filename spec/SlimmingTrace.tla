---------------------------- MODULE SlimmingTrace ----------------------------
(* Histories of real searches, interrupted and resumed.  par: as a            *)
(* configuration of Slimming.  Events:                                        *)
(*   eval [b, x, all]   the active subnet b was scored x on all the data      *)
(*   crash              the process ends; a new one resumes from the last     *)
(*                      saved state (from the start if there is none)         *)
(*   end [found, cost]  the search is over                                    *)
(*   stuck              the search gave up: nothing is left to reduce         *)
(*   file [b, cost]     a description written at the end, loaded into a fresh *)
(*                      model (the widths as bins)                            *)
(*   files [n]          how many there are                                    *)
(* qs: the searches this can be, past: what a resumed search can go on from.  *)
EXTENDS TraceCheck, FiniteSets
M == INSTANCE Slimming WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == LET q == M!Deliver(par, M!Start(par))
               IN  [qs |-> {q}, past |-> {q}, done |-> <<>>]
\* q, or what it may have moved on to
Closed(par, q) == {q} \cup {M!Move(par, q, b) : b \in M!Nexts(par, q)}
OneOf(x, q) == \E i \in 1..Len(q) : q[i] = x
TStep(par, s, e) ==
  CASE e.op = "eval" ->
         LET now == UNION {Closed(par, q) : q \in s.qs}
             can == {q \in now : M!CanScore(par, q, e.b)}
             re  == {M!Score(q, e.b, e.x) : q \in can}
         IN  [st |-> [s EXCEPT !.qs = re, !.past = @ \cup {M!Again(q) : q \in can}],
              bad |-> IF e.all = 0 THEN "a subnet is not scored on all the data, in evaluation mode"
                      ELSE IF can # {} THEN ""
                      ELSE IF \A q \in now : M!Over(par, q) \/ M!Fits(par, q) THEN "the search goes on although the target is reached"
                      ELSE IF \A q \in s.qs : {d[1] : d \in q.done} # M!Reductions(par, q.cur) THEN "the scored subnet is not a single reduction of the current one, or it is scored again"
                      ELSE "the scored subnet is not a single reduction of the best one"]
    [] e.op = "crash" ->
         LET now == UNION {Closed(par, q) : q \in s.qs} IN
         [st |-> [s EXCEPT !.qs = s.past \cup {M!Again(q) : q \in now}, !.past = @ \cup {M!Again(q) : q \in now}], bad |-> ""]
    [] e.op = "end" ->
         LET now == UNION {Closed(par, q) : q \in s.qs}
             over == {q \in now : M!Over(par, q)}
         IN  [st |-> [s EXCEPT !.qs = over, !.done = e.found],
              bad |-> IF over = {} THEN "the search ends before the last target is reached"
                      ELSE IF Len(e.found) # Len(par.targets) THEN "not one subnet per target is delivered"
                      ELSE IF \A q \in over : q.found # e.found THEN "the delivered subnets are not those the search reached"
                      ELSE IF \E i \in 1..Len(e.found) : e.cost[i] # M!Cost(par, e.found[i]) THEN "a subnet is reported with another cost than it has"
                      ELSE ""]
    [] e.op = "stuck" ->
         LET now == UNION {Closed(par, q) : q \in s.qs}
         IN  [st |-> s, bad |-> IF \E q \in now : M!Stuck(par, q) THEN "" ELSE "the search gives up"]
    [] e.op = "file" -> [st |-> s,
              bad |-> IF ~OneOf(e.b, s.done) THEN "a written description loads as another subnet than delivered"
                      ELSE IF e.cost # M!Cost(par, e.b) THEN "a written description is named by another cost" ELSE ""]
    [] e.op = "files" -> [st |-> s,
              bad |-> IF e.n # Cardinality({M!Cost(par, s.done[i]) : i \in 1..Len(s.done)})
                      THEN "not every delivered subnet is written down" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
