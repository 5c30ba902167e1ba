----------------------------- MODULE GroupsTrace -----------------------------
(* Histories of real mutators on larger models against Groups.tla.            *)
(* par is a configuration; events: prepare [ok, groups], set [v, cur, read],  *)
(* poke [e, x, cur], max / min [cur, read], sample [kind, v, cur], arch       *)
(* [groups].  v, cur, read: choice per element, 0 in v and read where the     *)
(* mutator names no single choice.                                            *)
EXTENDS TraceCheck, FiniteSets
G == INSTANCE Groups WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [on |-> FALSE, cur |-> G!MaxAll(par)]
Sets(gs) == {G!Range(gs[k]) : k \in 1..Len(gs)}
Once(gs) == \A j, k \in 1..Len(gs) : j # k => G!Range(gs[j]) \cap G!Range(gs[k]) = {}
TStep(par, s, e) ==
  CASE e.op = "prepare" ->
         IF e.ok # G!LegalGroups(par)
         THEN [st |-> s, bad |-> IF e.ok THEN "illegal custom groups are accepted" ELSE "preparing fails"]
         ELSE [st |-> [s EXCEPT !.on = e.ok, !.cur = IF e.ok THEN e.cur ELSE s.cur],
               bad |-> IF ~e.ok THEN ""
                       ELSE IF ~Once(e.groups) THEN "an element is in two groups"
                       ELSE IF Sets(e.groups) # G!Partition(par) THEN "the groups are not the ones asked for" ELSE ""]
    [] e.op = "set" ->
         [st |-> [s EXCEPT !.cur = e.cur],
          bad |-> IF e.cur # G!SetAll(par, e.v) THEN "an element has not its group's choice after setting"
                  ELSE IF e.read # e.cur THEN "reading the choices does not return what was set" ELSE ""]
    [] e.op \in {"max", "min"} ->
         LET x == IF e.op = "max" THEN G!MaxAll(par) ELSE G!MinAll(par)
         IN  [st |-> [s EXCEPT !.cur = e.cur],
              bad |-> IF \E k \in 1..Len(x) : par.els[k].kind \in {"value", "chan"} /\ e.cur[k] # x[k] THEN "not every element has its largest / smallest choice"
                      ELSE IF e.read # e.cur THEN "reading the choices does not return what was set" ELSE ""]
    [] e.op = "poke" ->
         [st |-> [s EXCEPT !.cur = e.cur],
          bad |-> IF e.cur # [s.cur EXCEPT ![e.e] = e.x] THEN "choosing one element changed another" ELSE ""]
    [] e.op = "sample" ->
         [st |-> s,
          bad |-> IF e.cur # s.cur THEN "sampling changed the model"
                  ELSE IF \E A \in G!Partition(par) : e.v[G!Min(A)] \notin 1..G!N(par, A) THEN "a sampled choice is not legal"
                  ELSE IF \E A \in G!Partition(par) : \E a \in A : e.v[a] # e.v[G!Min(A)] THEN "machinery: sample"
                  ELSE IF e.kind = "max" /\ \E a \in 1..Len(e.v) : par.els[a].kind \in {"value", "chan"} /\ e.v[a] # par.els[a].n THEN "the largest sample is not the largest choice"
                  ELSE IF e.kind = "min" /\ \E a \in 1..Len(e.v) : par.els[a].kind \in {"value", "chan"} /\ e.v[a] # 1 THEN "the smallest sample is not the smallest choice"
                  ELSE ""]
    [] e.op = "arch" ->
         [st |-> s,
          bad |-> IF Sets(e.groups) # {A \in G!Partition(par) : par.els[G!Min(A)].kind \in {"op", "diff"}} THEN "not every group of operations has architecture parameters" ELSE ""]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
    [] OTHER -> [st |-> s, bad |-> "machinery: event"]
=============================================================================
