--------------------------- MODULE EvolutionTrace ---------------------------
(* Histories of the real evolution search.  par: a configuration with init,   *)
(* the pool it starts with; events:                                           *)
(*   sample [s]         the mutator drew s                                    *)
(*   eval [s, x, all]   the subnet that was active was scored x (all: on      *)
(*                      every batch)                                          *)
(*   epoch [top, pool]  an epoch is over: entries [s, x, f, p]                *)
(*   saved [e, files, top, pool]  its saved state and the saved files         *)
(*   best [s, y]        the choices written as the best, the exported weights *)
(*                      being (y = 1) those of that subnet                    *)
EXTENDS TraceCheck, FiniteSets
E == INSTANCE Evolution WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [pool |-> par.init, top |-> <<>>, drawn |-> {}, evals |-> <<>>, e |-> 0]
SX(q) == [i \in 1..Len(q) |-> [s |-> q[i].s, x |-> q[i].x]]
Sub(q) == [i \in 1..Len(q) |-> q[i].s]
Entry(par, q) == E!Fits(par, q.s) /\ q.f = E!Cost(par, q.s) /\ q.p = E!Params(par, q.s)
EpochBad(par, s, e) ==
  LET es == Sub(s.evals) ps == Sub(s.pool) best == {e.top[i].s : i \in 1..Len(e.top)}
  IN CASE Len(es) # par.size -> "not every place of the pool is filled and scored"
       [] \E x \in E!Range(ps) : E!Count(es, x) < E!Count(ps, x) -> "a candidate of the pool is not scored"
       [] \E x \in E!Range(es) : E!Count(es, x) > E!Count(ps, x) /\ x \notin s.drawn -> "a candidate comes from nowhere"
       [] \E x \in E!Range(es) : ~E!Fits(par, x) -> "a candidate violates the constraints"
       [] \E q \in E!Range(e.top) : ~E!Is(par, q.s) -> "machinery: top"
       [] \E q \in E!Range(e.top) : ~Entry(par, q) -> "a best candidate's resources are not those of its choices"
       [] ~E!IsBest(SX(e.top), SX(s.evals) \o SX(s.top), par.k) -> "the best list does not hold the highest scores seen"
       [] Len(e.pool) > par.nm + par.nc -> "too many candidates are generated"
       [] \E q \in E!Range(e.pool) : ~E!Is(par, q.s) -> "a candidate has a choice outside the space"
       [] \E q \in E!Range(e.pool) : ~E!Fits(par, q.s) -> "a new candidate violates the constraints"
       [] \E q \in E!Range(e.pool) : ~Entry(par, q) -> "a new candidate's resources are not those of its choices"
       [] \E q \in E!Range(e.pool) : ~(E!Crossed(par, q.s, best) \/ E!Mutated(par, q.s, best, s.drawn)) -> "a new candidate is no recombination of existing and freshly sampled ones"
       [] Cardinality({i \in 1..Len(e.pool) : ~E!Crossed(par, e.pool[i].s, best)}) > par.nm -> "more mutated candidates than configured"
       [] Cardinality({i \in 1..Len(e.pool) : ~E!Mutated(par, e.pool[i].s, best, s.drawn)}) > par.nc -> "more crossed candidates than configured"
       [] par.free = 1 /\ Len(e.pool) # par.nm + par.nc -> "fewer candidates than configured are generated"
       [] OTHER -> ""
TStep(par, s, e) ==
  CASE e.op = "sample" -> [st |-> [s EXCEPT !.drawn = @ \cup {e.s}], bad |-> ""]
    [] e.op = "eval" -> [st |-> [s EXCEPT !.evals = Append(@, [s |-> e.s, x |-> e.x])],
                         bad |-> IF e.all = 1 THEN "" ELSE "a candidate is not scored on all the data"]
    [] e.op = "epoch" -> [st |-> [s EXCEPT !.top = e.top, !.pool = e.pool, !.drawn = {}, !.evals = <<>>, !.e = @ + 1],
                          bad |-> EpochBad(par, s, e)]
    [] e.op = "saved" -> [st |-> s,
                          bad |-> IF e.e # s.e \/ e.top # s.top \/ e.pool # s.pool THEN "the saved state is not the state of the search"
                                  ELSE IF {e.files[i] : i \in 1..Len(e.files)} # E!Files(s.e, par.keep) THEN "the wrong saved states are kept" ELSE ""]
    [] e.op = "best" -> [st |-> s,
                         bad |-> IF s.e # par.epochs THEN "the search does not run the configured epochs"
                                 ELSE IF e.s # s.top[1].s THEN "the exported subnet is not the best one"
                                 ELSE IF e.y # 1 THEN "the exported weights are not those of the best subnet" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
