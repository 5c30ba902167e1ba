-------------------------------- MODULE Ranges --------------------------------
(* Index-range maps (IndexDict) and the channel containers built on them.     *)
(* A configuration is [n, el]: a container of n channels and, per channel     *)
(* element that can be registered, its number of channels.  The state is the  *)
(* ordered sequence of registered ranges [s, e, m] (m the element, 0 for an   *)
(* always-kept filler) and the mask of every element.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs, Prefixes     \* Prefixes: only masks of first channels
Ones(n) == [j \in 1..n |-> 1]
Start(c) == [regs |-> <<>>, mk |-> [m \in 1..Len(c.el) |-> Ones(c.el[m])]]
Overlap(r, s, e) == s < r.e /\ r.s < e
Free(st, s, e) == \A k \in 1..Len(st.regs) : ~Overlap(st.regs[k], s, e)
InsertSorted(regs, r) == LET k == Cardinality({j \in 1..Len(regs) : regs[j].s < r.s})
                         IN  SubSeq(regs, 1, k) \o <<r>> \o SubSeq(regs, k+1, Len(regs))
Reg(st, m, s, e) == IF s >= e \/ ~Free(st, s, e) THEN [st |-> st, ok |-> FALSE]
                    ELSE [st |-> [st EXCEPT !.regs = InsertSorted(@, [s |-> s, e |-> e, m |-> m])], ok |-> TRUE]
Del(st, s, e) == LET ks == {k \in 1..Len(st.regs) : st.regs[k].s = s /\ st.regs[k].e = e}
                 IN  IF ks = {} THEN [st |-> st, ok |-> FALSE]
                     ELSE LET k == CHOOSE k \in ks : TRUE
                          IN  [st |-> [st EXCEPT !.regs = SubSeq(@, 1, k-1) \o SubSeq(@, k+1, Len(@))], ok |-> TRUE]
SetMask(st, m, mask) == [st EXCEPT !.mk[m] = mask]
\* reading a container with gaps puts fillers into them
RECURSIVE Filled(_, _, _)
Filled(regs, last, n) ==
  IF regs = <<>> THEN IF last < n THEN <<[s |-> last, e |-> n, m |-> 0]>> ELSE <<>>
  ELSE (IF last < regs[1].s THEN <<[s |-> last, e |-> regs[1].s, m |-> 0]>> ELSE <<>>)
       \o <<regs[1]>> \o Filled(Tail(regs), regs[1].e, n)
RECURSIVE Cat(_, _)
Cat(st, regs) == IF regs = <<>> THEN <<>>
                 ELSE (IF regs[1].m = 0 THEN Ones(regs[1].e - regs[1].s) ELSE st.mk[regs[1].m])
                      \o Cat(st, Tail(regs))
Read(st, n) == IF st.regs = <<>> THEN st ELSE [st EXCEPT !.regs = Filled(@, 0, n)]
Mask(st, n) == IF st.regs = <<>> THEN Ones(n) ELSE Cat(st, Filled(st.regs, 0, n))
Keys(st) == [k \in 1..Len(st.regs) |-> <<st.regs[k].s, st.regs[k].e>>]
---------------------------------------------------------------------------
VARIABLES S, ev
Vars == S
Cfg == Configs[S.ci]
Stt == [regs |-> S.regs, mk |-> S.mk]
Put(st) == S' = [ci |-> S.ci, regs |-> st.regs, mk |-> st.mk]
Ev(op, m, s, e, mask, ok) == [op |-> op, m |-> m, s |-> s, e |-> e, mask |-> mask, ok |-> ok]
Init == /\ S \in {[ci |-> x, regs |-> <<>>, mk |-> Start(Configs[x]).mk] : x \in 1..Len(Configs)}
        /\ ev = Ev("init", 0, 0, 0, <<>>, TRUE)
Masks(n) == {f \in [1..n -> {0, 1}] : f[1] = 1 /\ (Prefixes => \A j \in 2..n : f[j] <= f[j-1])}
DReg(m, s, e) == /\ (s < e /\ Free(Stt, s, e)) => e - s = Cfg.el[m]
                 /\ LET R == Reg(Stt, m, s, e) IN Put(R.st) /\ ev' = Ev("reg", m, s, e, <<>>, R.ok)
DSet(m, f) == Put(SetMask(Stt, m, f)) /\ ev' = Ev("set", m, 0, 0, f, TRUE)
DRead == Put(Read(Stt, Cfg.n)) /\ ev' = Ev("read", 0, 0, 0, Mask(Stt, Cfg.n), TRUE)
Next == \/ \E m \in 1..Len(Cfg.el) : \/ \E s, e \in 0..Cfg.n : DReg(m, s, e)
                                     \/ \E f \in Masks(Cfg.el[m]) : DSet(m, f)
        \/ DRead
Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, t |-> Vars', e |-> ev']))
---------------------------------------------------------------------------
SortedDisjoint == \A j, k \in 1..Len(S.regs) : j < k => S.regs[j].e <= S.regs[k].s
NonEmpty == \A j \in 1..Len(S.regs) : S.regs[j].s < S.regs[j].e
MaskIsWhole == Len(Mask(Stt, Cfg.n)) = Cfg.n
\* every channel: kept iff its registered element keeps it, or unregistered
MaskPointwise == \A x \in 1..Cfg.n :
   LET rs == {k \in 1..Len(S.regs) : S.regs[k].s < x /\ x <= S.regs[k].e}
   IN  Mask(Stt, Cfg.n)[x] = (IF rs = {} THEN 1
                               ELSE LET r == S.regs[CHOOSE k \in rs : TRUE]
                                    IN  IF r.m = 0 THEN 1 ELSE S.mk[r.m][x - r.s])
RefusedChangesNothing == [][~ev'.ok => S' = S]_<<S, ev>>
ReadKeepsRegistered == [][ev'.op = "read" => \A k \in 1..Len(S.regs) : \E j \in 1..Len(S'.regs) : S'.regs[j] = S.regs[k]]_<<S, ev>>
=============================================================================
