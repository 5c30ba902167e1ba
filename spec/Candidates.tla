------------------------------ MODULE Candidates ------------------------------
(* Lists of candidate subnets with their score and resources.  An entry is   *)
(* a cell of the heap; lists may share cells (slices, copies, lists built    *)
(* from another list).  Entries are only updated while a single list holds   *)
(* them once, so whether operations share or copy cells is not observable.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Subs, Vals, Keys, MaxLen

AllKeys == {"score", "flops", "params", "latency"}
Unset == [k \in AllKeys |-> -1]           \* a plain subnet: not estimated yet
Zero  == [k \in AllKeys |-> 0]

\* items given by the caller: [sub, m] with m = <<>> for a plain subnet, or a
\* sequence of [k, v] metrics (the others become 0)
RECURSIVE Over(_, _)
Over(m, kv) == IF kv = <<>> THEN m
               ELSE Over([m EXCEPT ![kv[1].k] = kv[1].v], Tail(kv))
Cell(it) == [sub |-> it.sub, m |-> IF it.m = <<>> THEN Unset ELSE Over(Zero, it.m)]

S0 == [heap |-> <<>>, li |-> <<<<>>, <<>>>>]
Obs(st) == [x \in 1..2 |-> [k \in 1..Len(st.li[x]) |-> st.heap[st.li[x][k]]]]

Fresh(st, items) == [st EXCEPT !.heap = @ \o [k \in 1..Len(items) |-> Cell(items[k])]]
Refs(st, items) == [k \in 1..Len(items) |-> Len(st.heap) + k]
Times(st, c) == Cardinality({<<x, k>> \in {1,2} \X (1..50) :
                               k <= Len(st.li[x]) /\ st.li[x][k] = c})
InsertAt(s, i, r) == SubSeq(s, 1, i) \o r \o SubSeq(s, i+1, Len(s))
\* Python slice bounds, 0-based half open, 0 <= a <= b
Slice(s, a, b) == LET n == Len(s) IN SubSeq(s, (IF a > n THEN n ELSE a) + 1, IF b > n THEN n ELSE b)
\* Python index (negative from the end) to 1-based position, 0 = out of range
Pos(n, i) == IF i >= 0 THEN (IF i < n THEN i + 1 ELSE 0)
             ELSE (IF -i <= n THEN n + i + 1 ELSE 0)

New(st, x, items)    == [Fresh(st, items) EXCEPT !.li[x] = Refs(st, items)]
Extend(st, x, items) == [Fresh(st, items) EXCEPT !.li[x] = @ \o Refs(st, items)]
InsertI(st, x, i, it) == [Fresh(st, <<it>>) EXCEPT !.li[x] = InsertAt(@, IF i > Len(@) THEN Len(@) ELSE i, Refs(st, <<it>>))]
ExtendL(st, x, y)    == [st EXCEPT !.li[x] = @ \o st.li[y]]
FromSlice(st, x, y, a, b) == [st EXCEPT !.li[x] = Slice(st.li[y], a, b)]
CopyL(st, x, y)      == [st EXCEPT !.li[x] = st.li[y]]
\* through a file (or deepcopy): same contents, separate entries
SaveLoad(st, x, y)   == [st EXCEPT !.heap = @ \o [k \in 1..Len(st.li[y]) |-> st.heap[st.li[y][k]]],
                                   !.li[x] = [k \in 1..Len(st.li[y]) |-> Len(st.heap) + k]]
SetOK(st, x, i)      == LET p == Pos(Len(st.li[x]), i)
                        IN  p # 0 => Times(st, st.li[x][p]) = 1
Set(st, x, i, k, v)  == LET p == Pos(Len(st.li[x]), i)
                        IN  IF p = 0 THEN [st |-> st, ok |-> FALSE]
                            ELSE [st |-> [st EXCEPT !.heap[st.li[x][p]].m[k] = v], ok |-> TRUE]
UpdOK(st, x, start, rs) == \A j \in 1..Len(rs) : start + j <= Len(st.li[x]) =>
                               Times(st, st.li[x][start + j]) = 1
RECURSIVE UpdRec(_, _, _, _)
UpdRec(st, x, p, rs) == IF rs = <<>> THEN st
   ELSE UpdRec([st EXCEPT !.heap[st.li[x][p]].m = Over(@, rs[1])], x, p + 1, Tail(rs))
Upd(st, x, start, rs) == IF start + Len(rs) > Len(st.li[x]) THEN [st |-> st, ok |-> FALSE]
                         ELSE [st |-> UpdRec(st, x, start + 1, rs), ok |-> TRUE]
DelI(st, x, i)       == LET p == Pos(Len(st.li[x]), i)
                        IN  IF p = 0 THEN [st |-> st, ok |-> FALSE]
                            ELSE [st |-> [st EXCEPT !.li[x] = SubSeq(@, 1, p-1) \o SubSeq(@, p+1, Len(@))],
                                  ok |-> TRUE]

Key(st, c, k) == st.heap[c].m[k]
\* every arrangement that is sorted and loses or duplicates nothing
IsSortOf(st, s, t, k, rev) ==
  /\ Len(s) = Len(t)
  /\ \A c \in {s[j] : j \in 1..Len(s)} \cup {t[j] : j \in 1..Len(t)} :
        Cardinality({j \in 1..Len(s) : s[j] = c}) = Cardinality({j \in 1..Len(t) : t[j] = c})
  /\ \A j \in 1..(Len(t) - 1) : IF rev THEN Key(st, t[j], k) >= Key(st, t[j+1], k)
                                ELSE Key(st, t[j], k) <= Key(st, t[j+1], k)
NoTies(st, x, k) == \A i, j \in 1..Len(st.li[x]) : i # j => Key(st, st.li[x][i], k) # Key(st, st.li[x][j], k)
RECURSIVE InsSort(_, _, _, _)
Ins(st, s, c, k, rev) ==      \* after the last element that must precede c
  LET ps == {j \in 1..Len(s) : IF rev THEN Key(st, s[j], k) >= Key(st, c, k)
                               ELSE Key(st, s[j], k) <= Key(st, c, k)}
  IN  InsertAt(s, Cardinality(ps), <<c>>)
InsSort(st, s, k, rev) == IF s = <<>> THEN <<>>
                          ELSE Ins(st, InsSort(st, SubSeq(s, 1, Len(s)-1), k, rev), s[Len(s)], k, rev)
Sorted(st, x, k, rev) == [st EXCEPT !.li[x] = InsSort(st, @, k, rev)]

\* forget entries no list holds, number the others in order of appearance
CanonSt(st) ==
  LET seq == st.li[1] \o st.li[2]
      first == {k \in 1..Len(seq) : \A j \in 1..(k-1) : seq[j] # seq[k]}
      num(c) == LET f == CHOOSE k \in first : seq[k] = c
                IN  Cardinality({k \in first : k <= f})
      n == Cardinality(first)
      old(i) == CHOOSE c \in {seq[k] : k \in first} : num(c) = i
  IN  [heap |-> [i \in 1..n |-> st.heap[old(i)]],
       li |-> [x \in 1..2 |-> [k \in 1..Len(st.li[x]) |-> num(st.li[x][k])]]]

-----------------------------------------------------------------------------
VARIABLES S, ev
Vars == S
Plain(s) == [sub |-> s, m |-> <<>>]
Items == {Plain(s) : s \in Subs}
         \cup {[sub |-> s, m |-> <<[k |-> "score", v |-> 5]>>] : s \in Subs}
Room(x, n) == Len(S.li[x]) + n <= MaxLen
Ev(op, x, y, a, b, items, k, v, ok) == [op |-> op, x |-> x, y |-> y, a |-> a, b |-> b,
                                        items |-> items, k |-> k, v |-> v, ok |-> ok]
X == {1, 2}
Init == S = S0 /\ ev = Ev("init", 0, 0, 0, 0, <<>>, "", 0, TRUE)
DNew(x, it) == TRUE /\ S' = CanonSt(New(S, x, <<it>>)) /\ ev' = Ev("new", x, 0, 0, 0, <<it>>, "", 0, TRUE)
DAppend(x, it) == Room(x, 1) /\ S' = CanonSt(Extend(S, x, <<it>>))
                  /\ ev' = Ev("append", x, 0, 0, 0, <<it>>, "", 0, TRUE)
DAppendL(x, it, jt) == Room(x, 2) /\ S' = CanonSt(Extend(S, x, <<it, jt>>))
                  /\ ev' = Ev("appendlist", x, 0, 0, 0, <<it, jt>>, "", 0, TRUE)
DExtend(x, it) == Room(x, 1) /\ S' = CanonSt(Extend(S, x, <<it>>))
                  /\ ev' = Ev("extend", x, 0, 0, 0, <<it>>, "", 0, TRUE)
DInsert(x, i, it) == Room(x, 1) /\ i <= Len(S.li[x]) /\ S' = CanonSt(InsertI(S, x, i, it))
                  /\ ev' = Ev("insert", x, 0, i, 0, <<it>>, "", 0, TRUE)
DExtendL(x, y) == Room(x, Len(S.li[y])) /\ S.li[y] # <<>> /\ S' = CanonSt(ExtendL(S, x, y))
                  /\ ev' = Ev("extendlist", x, y, 0, 0, <<>>, "", 0, TRUE)
DSlice(x, y, a, b) == a <= b /\ a <= Len(S.li[y]) /\ b <= Len(S.li[y]) + 1
                  /\ S' = CanonSt(FromSlice(S, x, y, a, b))
                  /\ ev' = Ev("slice", x, y, a, b, <<>>, "", 0, TRUE)
DCopy(x, y) == x # y /\ S' = CanonSt(CopyL(S, x, y)) /\ ev' = Ev("copy", x, y, 0, 0, <<>>, "", 0, TRUE)
NoShare(y) == \A i, j \in 1..Len(S.li[y]) : i # j => S.li[y][i] # S.li[y][j]
DSave(x, y) == NoShare(y) /\ S' = CanonSt(SaveLoad(S, x, y)) /\ S.li[y] # <<>>
                  /\ ev' = Ev("save", x, y, 0, 0, <<>>, "", 0, TRUE)
DSet(x, i, k, v) == SetOK(S, x, i) /\ i <= Len(S.li[x]) /\ -i <= Len(S.li[x]) + 1
                  /\ LET R == Set(S, x, i, k, v) IN S' = CanonSt(R.st)
                     /\ ev' = Ev("set", x, 0, i, 0, <<>>, k, v, R.ok)
DUpd(x, a, v) == LET rs == <<<<[k |-> "score", v |-> v]>>, <<[k |-> "score", v |-> 6]>>>>
                 IN  UpdOK(S, x, a, rs) /\ a <= Len(S.li[x])
                     /\ LET R == Upd(S, x, a, rs) IN S' = CanonSt(R.st)
                        /\ ev' = Ev("update", x, 0, a, 0, rs, "", 0, R.ok)
DSort(x, k, rev) == NoTies(S, x, k) /\ Len(S.li[x]) > 1 /\ S' = CanonSt(Sorted(S, x, k, rev))
                  /\ ev' = Ev("sort", x, 0, IF rev THEN 1 ELSE 0, 0, <<>>, k, 0, TRUE)
DDel(x, i) == i <= Len(S.li[x]) /\ LET R == DelI(S, x, i) IN S' = CanonSt(R.st)
                  /\ ev' = Ev("del", x, 0, i, 0, <<>>, "", 0, R.ok)

Next == \E x \in X :
  \/ \E it \in Items : DNew(x, it) \/ DAppend(x, it) \/ DExtend(x, it)
                       \/ \E i \in 0..MaxLen : DInsert(x, i, it)
                       \/ \E jt \in Items : DAppendL(x, it, jt)
  \/ \E y \in X : DExtendL(x, y) \/ DCopy(x, y) \/ DSave(x, y)
                  \/ \E a, b \in 0..MaxLen+1 : DSlice(x, y, a, b)
  \/ \E i \in (-MaxLen-1)..MaxLen, k \in Keys, v \in Vals : DSet(x, i, k, v)
  \/ \E a \in 0..MaxLen, v \in Vals : DUpd(x, a, v)
  \/ \E k \in Keys, rev \in BOOLEAN : DSort(x, k, rev)
  \/ \E i \in 0..MaxLen : DDel(x, i)

Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, e |-> ev', t |-> Vars']))
-----------------------------------------------------------------------------
\* an update changes the addressed entry only
OnlyAddressed ==
  [][(ev'.op = "set" /\ ev'.ok) =>
       LET p == Pos(Len(S.li[ev'.x]), ev'.a)
       IN  \A x \in X : \A k \in 1..Len(S.li[x]) :
             /\ S'.li = S.li
             /\ (x # ev'.x \/ k # p) => Obs(S')[x][k] = Obs(S)[x][k]
             /\ (x = ev'.x /\ k = p) => Obs(S')[x][k].m = [Obs(S)[x][k].m EXCEPT ![ev'.k] = ev'.v]]_<<S, ev>>
SortKeeps ==
  [][ev'.op = "sort" =>
       LET o == Obs(S)[ev'.x]
           n == Obs(S')[ev'.x]
           cnt(s, v) == Cardinality({j \in 1..Len(s) : s[j] = v})
       IN  /\ Len(o) = Len(n)
           /\ \A j \in 1..Len(n) : cnt(o, n[j]) = cnt(n, n[j])
           /\ \A j \in 1..(Len(n) - 1) : IF ev'.a = 1 THEN n[j].m[ev'.k] >= n[j+1].m[ev'.k]
                                       ELSE n[j].m[ev'.k] <= n[j+1].m[ev'.k]]_<<S, ev>>
RefsLive == \A x \in X : \A k \in 1..Len(S.li[x]) : S.li[x][k] \in 1..Len(S.heap)
RefusedChangesNothing == [][~ev'.ok => S' = S]_<<S, ev>>
=============================================================================
