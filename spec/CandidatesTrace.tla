--------------------------- MODULE CandidatesTrace ---------------------------
(* Recorded histories of real Candidates against Candidates.tla.  Events as  *)
(* there plus obs = both lists as [sub, m] entries, and for "sort" the new    *)
(* order as positions in the old list (found by the driver by identity).      *)
EXTENDS TraceCheck, FiniteSets
C == INSTANCE Candidates WITH Subs <- {}, Vals <- {}, Keys <- {}, MaxLen <- 0, S <- trState, ev <- trNo
TStart(par) == C!S0
TStep(par, s, e) ==
  LET ok(x) == [st |-> x, ok |-> TRUE]
      sorted == [s EXCEPT !.li[e.x] = [j \in 1..Len(e.perm) |-> s.li[e.x][e.perm[j]]]]
      R == CASE e.op = "new" -> ok(C!New(s, e.x, e.items))
             [] e.op \in {"append", "appendlist", "extend"} -> ok(C!Extend(s, e.x, e.items))
             [] e.op = "insert" -> ok(C!InsertI(s, e.x, e.a, e.items[1]))
             [] e.op \in {"extendlist", "appendc"} -> ok(C!ExtendL(s, e.x, e.y))
             [] e.op = "slice" -> ok(C!FromSlice(s, e.x, e.y, e.a, e.b))
             [] e.op \in {"copy", "rebuild"} -> ok(C!CopyL(s, e.x, e.y))
             [] e.op = "save" -> ok(C!SaveLoad(s, e.x, e.y))
             [] e.op = "set" -> C!Set(s, e.x, e.a, e.k, e.v)
             [] e.op = "update" -> C!Upd(s, e.x, e.a, e.items)
             [] e.op = "del" -> C!DelI(s, e.x, e.a)
             [] e.op = "sort" -> ok(sorted)
      bad == CASE R.ok # e.ok -> "should " \o (IF R.ok THEN "succeed" ELSE "fail")
               [] e.op = "sort" /\ ~C!IsSortOf(s, s.li[e.x], sorted.li[e.x], e.k, e.a = 1) -> "not sorted"
               [] C!Obs(R.st) # e.obs -> "entries differ"
               [] OTHER -> ""
  IN [st |-> R.st, bad |-> bad]
=============================================================================
