-------------------------------- MODULE Groups --------------------------------
(* The search groups of a mutator.  A configuration has searchable elements   *)
(*   els    [kind, n, alias]  kind "value" | "op" | "diff" | "chan", n choices *)
(*   walk   [e, d]   the places of the model in walking order: place k holds  *)
(*                   element e[1] itself (d = FALSE) or an element derived    *)
(*                   from all elements of e (d = TRUE)                        *)
(*   custom          groups asked for: keys [a, s], an alias or a place       *)
(*   arch            architecture parameters are prepared                     *)
(* The state is the choice (1..n) of every element.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Configs

Range(s) == {s[k] : k \in 1..Len(s)}
InGroups(c) == {e \in 1..Len(c.els) : c.els[e].kind # "chan"}
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Direct(c, e) == {k \in 1..Len(c.walk) : ~c.walk[k].d /\ c.walk[k].e[1] = e}
Hidden(c, e) == {k \in 1..Len(c.walk) : c.walk[k].d /\ e \in Range(c.walk[k].e)}
\* an element is called by its own place, or else by the first place of an
\* element derived from it
Place(c, e) == IF Direct(c, e) # {} THEN Min(Direct(c, e)) ELSE Min(Hidden(c, e))
Places(c) == {Place(c, e) : e \in InGroups(c)}
Aliases(c) == {c.els[e].alias : e \in InGroups(c)} \ {""}
Keys(c) == UNION {Range(c.custom[g]) : g \in 1..Len(c.custom)}
\* elements a key stands for
Meant(c, k) == IF k.a # "" THEN {e \in InGroups(c) : c.els[e].alias = k.a}
               ELSE {e \in InGroups(c) : Place(c, e) = k.s}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
LegalGroups(c) ==
  /\ \A k \in Keys(c) : Meant(c, k) # {}
  /\ LET f == Flat(c.custom) IN \A i, j \in 1..Len(f) : i # j => Meant(c, f[i]) \cap Meant(c, f[j]) = {}
CustomOf(c, g) == UNION {Meant(c, k) : k \in Range(c.custom[g])}
Taken(c) == UNION {CustomOf(c, g) : g \in 1..Len(c.custom)}
Partition(c) ==
  {CustomOf(c, g) : g \in {g \in 1..Len(c.custom) : c.custom[g] # <<>>}}
  \cup {{e \in InGroups(c) \ Taken(c) : c.els[e].alias = a} : a \in {c.els[e].alias : e \in InGroups(c) \ Taken(c)} \ {""}}
  \cup {{e} : e \in {e \in InGroups(c) \ Taken(c) : c.els[e].alias = ""}}
  \cup {{e} : e \in {e \in 1..Len(c.els) : c.els[e].kind = "chan"}}
\* checked: it is one
IsPartition(c) == LET P == Partition(c) IN
  /\ UNION P = 1..Len(c.els)
  /\ \A A, B \in P : A # B => A \cap B = {}
  /\ {} \notin P
  /\ \A a, b \in InGroups(c) \ Taken(c) : c.els[a].alias = c.els[b].alias /\ c.els[a].alias # "" => \E A \in P : {a, b} \subseteq A
Homogeneous(c) == \A A \in Partition(c) : \A a, b \in A : c.els[a].n = c.els[b].n /\ c.els[a].kind = c.els[b].kind
GroupOf(c, e) == CHOOSE A \in Partition(c) : e \in A
Agree(c, cur, A) == \A a, b \in A : cur[a] = cur[b]
N(c, A) == c.els[Min(A)].n
\* all members of every group get its choice v[smallest member]
SetAll(c, v) == [e \in 1..Len(c.els) |-> v[Min(GroupOf(c, e))]]
MaxAll(c) == [e \in 1..Len(c.els) |-> c.els[e].n]
MinAll(c) == [e \in 1..Len(c.els) |-> 1]
Legal(c, v) == \A e \in 1..Len(c.els) : v[e] \in 1..c.els[e].n
-----------------------------------------------------------------------------
VARIABLES S, ev
Vars == S
Init == \E k \in 1..Len(Configs) :
          /\ ev = [op |-> "init"]
          /\ S = [k |-> k, on |-> FALSE, cur |-> MaxAll(Configs[k])]
C == Configs[S.k]
Parts == [k \in 1..Len(Configs) |-> IF LegalGroups(Configs[k]) THEN Partition(Configs[k]) ELSE {}]
Leader == [k \in 1..Len(Configs) |-> IF LegalGroups(Configs[k]) THEN [e \in 1..Len(Configs[k].els) |-> Min(GroupOf(Configs[k], e))] ELSE <<>>]
Prepare == /\ ~S.on
           /\ S' = [S EXCEPT !.on = LegalGroups(C)]
           /\ ev' = [op |-> "prepare", ok |-> LegalGroups(C), groups |-> IF LegalGroups(C) THEN Partition(C) ELSE {}]
Set(v) == /\ S' = [S EXCEPT !.cur = v]      \* v = SetAll(C, v), checked
          /\ ev' = [op |-> "set", v |-> v]
Poke(e, x) == /\ S' = [S EXCEPT !.cur[e] = x]
              /\ ev' = [op |-> "poke", e |-> e, x |-> x]
\* one vector per assignment of choices to groups
Vectors == {v \in [1..Len(C.els) -> 1..3] : /\ Legal(C, v)
                                            /\ \A e \in 1..Len(C.els) : v[e] = v[Leader[S.k][e]]}
NoOps == \A e \in 1..Len(C.els) : C.els[e].kind \in {"value", "chan"}
Extreme(m) == /\ NoOps
              /\ S' = [S EXCEPT !.cur = IF m = "max" THEN MaxAll(C) ELSE MinAll(C)]
              /\ ev' = [op |-> m]
Nxt == \/ Prepare
       \/ /\ S.on
          /\ \/ \E v \in Vectors : Set(v)
             \/ \E e \in 1..Len(C.els) : \E x \in 1..C.els[e].n : S.cur[e] # x /\ Poke(e, x)
             \/ \E m \in {"max", "min"} : Extreme(m)
Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, e |-> ev', t |-> Vars']))
Inv == /\ ~S.on /\ LegalGroups(C) => /\ IsPartition(C)
                                    /\ \A v \in Vectors : v = SetAll(C, v)
       /\ Legal(C, S.cur)
\* after setting, all members agree
SetAgrees == [][ev'.op \in {"set", "max", "min"} => \A A \in Parts[S.k] : Agree(C, S'.cur, A)]_<<S, ev>>
=============================================================================
