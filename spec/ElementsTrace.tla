---------------------------- MODULE ElementsTrace ----------------------------
(* Recorded histories of real mutables against Elements.tla.  par is the      *)
(* configuration plus foc, what the check is about ("src", "fix", "der").     *)
(* Events as there plus rep = what every element reports afterwards (<<>> if  *)
(* it was not read) and out = the enumerated choices / sampled choice.        *)
EXTENDS TraceCheck, FiniteSets
E == INSTANCE Elements WITH Configs <- <<>>, S <- trState, ev <- trNo
TStart(par) == E!Start(par)
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
\* the state the sources report, so that what is derived is judged by it
Seen(par, s, e) ==
  IF e.rep = <<>> THEN s
  ELSE [c |-> [i \in 1..Len(par.src) |->
                CASE par.src[i].kind = "val" -> <<e.rep[i].v.ch>>
                  [] par.src[i].kind = "simple" -> e.rep[i].v.mk
                  [] OTHER -> <<E!Ones(e.rep[i].v.mk)>>],
        fx |-> [i \in 1..Len(par.src) |-> e.rep[i].fx]]
TStep(par, s, e) ==
  LET n == Len(par.src)
      ok(x) == [st |-> x, ok |-> TRUE]
      R == CASE e.op = "assign" -> E!Assign(par, s, e.i, e.v)
             [] e.op = "fix" -> E!Fix(par, s, e.i, e.v)
             [] e.op = "fixasis" -> E!FixAsIs(par, s, e.i)
             [] e.op = "unfix" -> E!Unfix(par, s, e.i)
             [] e.op \in {"setder", "maskder", "unfixder"} -> [st |-> s, ok |-> FALSE]
             [] OTHER -> ok(s)
      T == IF par.foc = "der" THEN Seen(par, R.st, e) ELSE R.st
      isfix == e.op \in {"fix", "fixasis", "unfix"}
      srcdiff == e.rep # <<>> /\ \E x \in 1..n : e.rep[x] # E!Report(par, T, x)
      derdiff == e.rep # <<>> /\ \E x \in (n+1)..(n + Len(par.der)) : e.rep[x] # E!Report(par, T, x)
      about(what, text) == IF par.foc = what THEN text ELSE "skip"
      bad == CASE par.foc # "der" /\ R.ok # e.ok ->
                    about(IF isfix THEN "fix" ELSE IF e.op = "enum" THEN "der" ELSE "src",
                          e.op \o " should " \o (IF R.ok THEN "succeed" ELSE "fail"))
               [] par.foc # "der" /\ srcdiff ->
                    about(IF isfix THEN "fix" ELSE IF e.op = "enum" THEN "der" ELSE "src", "reports differ")
               [] par.foc = "src" /\ e.op = "sample" /\ ~E!Legal(par, e.i, e.out) -> "sampled an illegal choice"
               [] par.foc = "der" /\ e.op = "enum" /\ ~e.ok -> "cannot enumerate"
               [] par.foc = "der" /\ e.op = "enum" /\ e.rep # <<>> /\ T # s -> "enumerating changed the sources"
               [] par.foc = "der" /\ derdiff -> "derived reports differ"
               [] par.foc = "der" /\ e.op = "enum" /\
                    (Len(e.out) # Cardinality(E!Combos(par, e.i))
                     \/ \E j \in 1..Len(e.out) : Count(e.out, e.out[j]) # E!Times(par, T, e.i, e.out[j]))
                    -> "enumerated choices differ"
               [] OTHER -> ""
  IN [st |-> T, bad |-> bad]
=============================================================================
