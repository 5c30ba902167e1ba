----------------------------- MODULE GraphsTrace -----------------------------
(* Recorded edit histories of real graphs against Graphs.tla.  obs = the      *)
(* nodes in order with their prev lists and next sets; order = the walk.      *)
EXTENDS TraceCheck, FiniteSets
G == INSTANCE Graphs WITH Names <- {}, Vals <- {}, S <- trState, ev <- trNo
TStart(par) == G!G0
Obs(g) == [k \in 1..Len(g) |-> [nm |-> g[k].nm, val |-> g[k].val, prev |-> g[k].prev]]
TStep(par, s, e) ==
  LET R == CASE e.op = "add" -> G!Add(s, e.a.nm, e.a.val)
             [] e.op = "addfind" -> G!AddFind(s, e.a.nm, e.a.val)
             [] e.op = "connect" -> G!Connect(s, e.a, e.b)
             [] e.op = "disconnect" -> G!Disconnect(s, e.a, e.b)
             [] e.op = "delete" -> G!Delete(s, e.a)
             [] e.op = "insert" -> G!ok(G!Insert(s, e.a.nm, e.b.nm))
             [] e.op \in {"copy", "rebuild", "walk"} -> G!ok(s)
             [] e.op = "sort" -> G!ok(IF G!Topological(s, e.order) THEN G!Reorder(s, e.order) ELSE s)
             [] e.op = "checkfix" -> G!ok(IF G!Topological(s, e.order) THEN G!CheckFix(s, e.order) ELSE s)
      bad == CASE R.ok # e.ok -> e.op \o " should " \o (IF R.ok THEN "succeed" ELSE "fail")
               [] e.order # <<>> /\ ~G!Topological(s, e.order) -> "not a topological walk of all nodes"
               [] Obs(R.g) # e.obs -> "nodes or edges differ"
               [] \E k \in 1..Len(e.nexts) : {e.nexts[k][j] : j \in 1..Len(e.nexts[k])} # G!Next_(R.g, e.obs[k].nm)
                     -> "links are not symmetric"
               [] \E k \in 1..Len(e.nexts) : Cardinality({e.nexts[k][j] : j \in 1..Len(e.nexts[k])}) # Len(e.nexts[k])
                     -> "a link is listed twice"
               [] OTHER -> ""
  IN [st |-> R.g, bad |-> bad]
=============================================================================
