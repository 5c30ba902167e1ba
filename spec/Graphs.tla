-------------------------------- MODULE Graphs --------------------------------
(* Directed acyclic graphs of named nodes and their edits (BaseGraph,         *)
(* ModuleGraph).  The state is the sequence of nodes in insertion order:      *)
(* [nm, val, prev], prev the names of the predecessors in connection order.   *)
(* val: 1 input, 2 output, others inner nodes.  A node is in the graph when   *)
(* the graph has one of its name and its value.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Vals
G0 == <<>>
Idx(g, n) == LET ks == {k \in 1..Len(g) : g[k].nm = n} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE
Has(g, n, v) == LET k == Idx(g, n) IN k > 0 /\ g[k].val = v
NamesOf(g) == {g[k].nm : k \in 1..Len(g)}
In(s, x) == \E j \in 1..Len(s) : s[j] = x
Minus(s, x) == SelectSeq(s, LAMBDA y : y # x)
Prev(g, n) == g[Idx(g, n)].prev
Next_(g, n) == {g[k].nm : k \in {k \in 1..Len(g) : In(g[k].prev, n)}}
Edge(g, a, b) == In(Prev(g, b), a)
Conn(g, a, b) == IF Edge(g, a, b) THEN g ELSE [g EXCEPT ![Idx(g, b)].prev = Append(@, a)]
Disc(g, a, b) == [g EXCEPT ![Idx(g, b)].prev = Minus(@, a)]
RECURSIVE Reach(_, _, _)
Reach(g, T, k) == IF k = 0 THEN T ELSE Reach(g, T \cup UNION {Next_(g, n) : n \in T}, k - 1)
Acyclic(g) == \A n \in NamesOf(g) : n \notin Reach(g, Next_(g, n), Len(g))
ok(g) == [g |-> g, ok |-> TRUE]
no(g) == [g |-> g, ok |-> FALSE]
\* ---- edits
Add(g, n, v) == IF Idx(g, n) > 0 THEN no(g) ELSE ok(Append(g, [nm |-> n, val |-> v, prev |-> <<>>]))
AddFind(g, n, v) == IF Has(g, n, v) THEN ok(g) ELSE Add(g, n, v)
Connect(g, a, b) == IF a.nm \notin NamesOf(g) \/ b.nm \notin NamesOf(g) \/ ~Has(g, a.nm, a.val) \/ ~Has(g, b.nm, b.val)
                    THEN no(g) ELSE ok(Conn(g, a.nm, b.nm))
Disconnect(g, a, b) == IF ~Has(g, a.nm, a.val) \/ ~Has(g, b.nm, b.val) THEN no(g) ELSE ok(Disc(g, a.nm, b.nm))
RECURSIVE ConnAll(_, _, _)
ConnAll(g, from, tos) == IF tos = <<>> THEN g ELSE ConnAll(Conn(g, from, tos[1]), from, Tail(tos))
RECURSIVE ConnTo(_, _, _)
ConnTo(g, froms, to) == IF froms = <<>> THEN g ELSE ConnTo(Conn(g, froms[1], to), Tail(froms), to)
Drop(g, n) == LET h == [k \in 1..Len(g) |-> [g[k] EXCEPT !.prev = Minus(@, n)]]
              IN  SelectSeq(h, LAMBDA r : r.nm # n)
\* successors in node order (the order of appending does not matter: each has
\* its own list)
SuccSeq(g, n) == LET s == SelectSeq(g, LAMBDA r : In(r.prev, n)) IN [k \in 1..Len(s) |-> s[k].nm]
\* deleting joins the only predecessor (successor) to the successors
\* (predecessors); with several of both it is refused
Delete(g, a) ==
  IF ~Has(g, a.nm, a.val) THEN no(g)
  ELSE LET n == a.nm
           ps == Prev(g, n)
           ns == SuccSeq(g, n)
       IN  IF ps = <<>> \/ ns = <<>> THEN ok(Drop(g, n))
           ELSE IF Len(ps) = 1 THEN ok(ConnAll(Drop(g, n), ps[1], ns))
           ELSE IF Len(ns) = 1 THEN ok(ConnTo(Drop(g, n), ps, ns[1]))
           ELSE no(g)
\* a new node between n and all its predecessors
Insert(g, n, new) ==
  LET h == Append(g, [nm |-> new, val |-> 3, prev |-> Prev(g, n)])
  IN  [h EXCEPT ![Idx(g, n)].prev = <<new>>]
Topological(g, order) ==
  /\ Len(order) = Len(g)
  /\ {order[k] : k \in 1..Len(order)} = NamesOf(g)
  /\ \A j, k \in 1..Len(order) : Edge(g, order[j], order[k]) => j < k
Reorder(g, order) == [k \in 1..Len(order) |-> g[Idx(g, order[k])]]
RECURSIVE Kahn(_, _)
Kahn(g, done) ==
  LET left == SelectSeq(g, LAMBDA r : ~In(done, r.nm) /\ \A j \in 1..Len(r.prev) : In(done, r.prev[j]))
  IN  IF left = <<>> THEN done ELSE Kahn(g, Append(done, left[1].nm))
\* every node without input (output) gets one from the automatic input (output)
AutoIn == "auto_input"
AutoOut == "auto_output"
RECURSIVE CheckFix(_, _)
CheckFix(g, ns) ==
  IF ns = <<>> THEN g
  ELSE LET n == ns[1]
           v == g[Idx(g, n)].val
           a == IF v # 1 /\ Prev(g, n) = <<>> THEN Conn(AddFind(g, AutoIn, 1).g, AutoIn, n) ELSE g
           b == IF v # 2 /\ Next_(a, n) = {} THEN Conn(AddFind(a, AutoOut, 2).g, n, AutoOut) ELSE a
       IN  CheckFix(b, Tail(ns))
Fixable(g) == \A k \in 1..Len(g) : /\ g[k].val = 1 => g[k].prev = <<>>
                                   /\ g[k].val = 2 => Next_(g, g[k].nm) = {}
Complete(g) == \A k \in 1..Len(g) : /\ g[k].val # 1 => g[k].prev # <<>>
                                    /\ g[k].val # 2 => Next_(g, g[k].nm) # {}
---------------------------------------------------------------------------
VARIABLES S, ev
Vars == S
Ev(op, a, b, okk) == [op |-> op, a |-> a, b |-> b, ok |-> okk]
Nodes == [nm : Names, val : Vals]
NoNode == [nm |-> "", val |-> 0]
Init == S = G0 /\ ev = Ev("init", NoNode, NoNode, TRUE)
Do(op, a, b, R) == S' = R.g /\ ev' = Ev(op, a, b, R.ok)
Nxt == \E a \in Nodes :
         \/ Do("add", a, NoNode, Add(S, a.nm, a.val))
         \/ Do("addfind", a, NoNode, AddFind(S, a.nm, a.val))
         \/ Do("delete", a, NoNode, Delete(S, a))
         \/ \E b \in Nodes :
              \/ a.nm # b.nm /\ LET R == Connect(S, a, b) IN Acyclic(R.g) /\ Do("connect", a, b, R)
              \/ a.nm # b.nm /\ Do("disconnect", a, b, Disconnect(S, a, b))
              \/ /\ Has(S, a.nm, a.val) /\ b.nm \notin NamesOf(S) /\ b.val = 3
                 /\ Do("insert", a, b, ok(Insert(S, a.nm, b.nm)))
         \/ Do("copy", NoNode, NoNode, ok(S))
         \/ Do("sort", NoNode, NoNode, ok(Reorder(S, Kahn(S, <<>>))))
         \/ Do("rebuild", NoNode, NoNode, ok(S))
Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, t |-> Vars', e |-> ev']))
---------------------------------------------------------------------------
UniqueNames == \A j, k \in 1..Len(S) : j # k => S[j].nm # S[k].nm
OwnEdges == \A k \in 1..Len(S) : \A j \in 1..Len(S[k].prev) : S[k].prev[j] \in NamesOf(S)
NoDoubleEdges == \A k \in 1..Len(S) : \A i, j \in 1..Len(S[k].prev) : i # j => S[k].prev[i] # S[k].prev[j]
IsAcyclic == Acyclic(S)
WalkIsTopological == Topological(S, Kahn(S, <<>>))
RefusedChangesNothing == [][~ev'.ok => S' = S]_<<S, ev>>
\* what a deleted node connected stays connected
DeleteKeepsPaths == [][(ev'.op = "delete" /\ ev'.ok) =>
   \A a \in NamesOf(S') : \A b \in NamesOf(S') :
      (b \in Reach(S, Next_(S, a), Len(S))) <=> (b \in Reach(S', Next_(S', a), Len(S')))]_<<S, ev>>
=============================================================================
