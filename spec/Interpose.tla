------------------------------ MODULE Interpose ------------------------------
(* Recorders and deliveries interposed on call sources (functions, methods,  *)
(* inherited methods, modules).  A configuration is                          *)
(*   L  : sequence of layers [kind, src, grp, cap]                           *)
(*        kind "in"/"out" recorder of inputs/outputs, "pa" parameter         *)
(*        recorder, "dl" delivery (cap = queue capacity)                     *)
(*        src  "f","g" functions, "m" method, "i" the same method inherited  *)
(*        by a subclass, "x" module                                          *)
(*        grp  the context manager the layer belongs to (1..NG)              *)
(* All operators are functions of (L, state) so that the trace specification *)
(* can use them with a configuration per trace.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS L, NG, MaxN, MaxEnter, Vals, Srcs,
          HMax      \* longest history kept (0: none)

IsRec(K, l) == K[l].kind \in {"in", "out"}
InGrp(K, g) == {l \in 1..Len(K) : K[l].grp = g}
\* layers of a group in the order the group enters them
RECURSIVE GrpSeq(_, _, _)
GrpSeq(K, g, l) == IF l > Len(K) THEN <<>>
                   ELSE (IF K[l].grp = g THEN <<l>> ELSE <<>>) \o GrpSeq(K, g, l+1)

S0(K) == [open |-> <<>>, gs |-> <<>>, n |-> 0, ents |-> 0,
          ov |-> [l \in 1..Len(K) |-> FALSE],
          D  |-> [l \in 1..Len(K) |-> IF K[l].kind = "pa" THEN <<0>> ELSE <<>>]]

Opened(st, g) == \E k \in 1..Len(st.gs) : st.gs[k] = g

\* the wrappers a call of src passes, innermost first
Below(src, s) == s = src \/ (src = "i" /\ s = "m")
Chain(K, st, src) == SelectSeq(st.open, LAMBDA l : K[l].kind # "pa" /\ Below(src, K[l].src))

\* calls through the subclass while the base method was wrapped inside the
\* subclass's wrapper are outside the specification
CallOK(K, st, src) ==
  src = "i" => ~ \E j, k \in 1..Len(st.open) : j < k /\ K[st.open[j]].src = "i"
                                               /\ K[st.open[k]].src = "m"

(* One call: walks the chain from the outermost wrapper (k = Len(c)) to the  *)
(* original (k = 0).  v = 0: the original raises; v = 9: it calls itself     *)
(* through its public name with argument 1; v = 8, 7: it returns None, 0.    *)
RECURSIVE Walk(_, _, _, _, _)
Walk(K, st, c, k, v) ==
  IF k = 0
  THEN LET a == [st EXCEPT !.n = @ + 1]
           res == IF v \in {7, 8} THEN 1000 * v ELSE 1000 * v + st.n + 1
       IN  CASE v = 0 -> [st |-> a, ok |-> FALSE, r |-> 0]
             [] v = 9 -> LET b == Walk(K, a, c, Len(c), 1)
                         IN  [st |-> b.st, ok |-> b.ok, r |-> IF b.ok THEN res ELSE 0]
             [] OTHER -> [st |-> a, ok |-> TRUE, r |-> res]
  ELSE LET l == c[k]
           app(b, x) == [b EXCEPT !.st.D[l] = Append(@, x)]
       IN  IF K[l].kind = "dl"
           THEN IF st.ov[l]
                THEN IF st.D[l] = <<>> THEN [st |-> st, ok |-> FALSE, r |-> 0]
                     ELSE [st |-> [st EXCEPT !.D[l] = Tail(@)], ok |-> TRUE,
                           r |-> Head(st.D[l])]
                ELSE IF Len(st.D[l]) >= K[l].cap THEN [st |-> st, ok |-> FALSE, r |-> 0]
                     ELSE LET b == Walk(K, st, c, k-1, v)
                          IN  IF b.ok THEN app(b, b.r) ELSE b
           ELSE LET b == Walk(K, st, c, k-1, v)
                IN  IF b.ok THEN app(b, IF K[l].kind = "in" THEN v ELSE b.r) ELSE b

DoCall(K, st, src, v) ==
  LET c == Chain(K, st, src) IN Walk(K, st, c, Len(c), v)

DoEnter(K, st, g) ==
  [st EXCEPT !.open = @ \o GrpSeq(K, g, 1), !.gs = Append(@, g), !.ents = @ + 1,
             !.D = [l \in 1..Len(K) |-> IF K[l].grp = g /\ IsRec(K, l) THEN <<>> ELSE @[l]]]

\* contexts close innermost first, whether normally or by an exception
DoExit(K, st, g) ==
  [st EXCEPT !.open = SelectSeq(@, LAMBDA l : K[l].grp # g),
             !.gs = SubSeq(@, 1, Len(@) - 1)]

DoOv(K, st, g, b) ==
  [st EXCEPT !.ov = [l \in 1..Len(K) |-> IF K[l].grp = g THEN b ELSE @[l]]]

HasDl(K, g) == \E l \in InGrp(K, g) : K[l].kind = "dl"
Recursable(K, st, src) ==
  \A k \in 1..Len(Chain(K, st, src)) : K[Chain(K, st, src)[k]].kind # "dl"

-----------------------------------------------------------------------------
VARIABLES S, ev, H
Vars == S

Ev(op, g, src, v, ok, r) == [op |-> op, g |-> g, src |-> src, v |-> v, ok |-> ok, r |-> r]

Init == S = S0(L) /\ ev = Ev("init", 0, "", 0, TRUE, 0) /\ H = <<>>

Log(x) == IF HMax = 0 THEN H ELSE Append(H, x)

Call(src, v) ==
  /\ S.n < MaxN
  /\ CallOK(L, S, src)
  /\ (v = 9 => src # "x" /\ Recursable(L, S, src) /\ S.n + 1 < MaxN)
  /\ LET R == DoCall(L, S, src, v)
     IN  /\ S' = R.st
         /\ ev' = Ev("call", 0, src, v, R.ok, R.r)
         /\ H' = Log([op |-> "call", src |-> src, v |-> v, ok |-> R.ok, r |-> R.r,
                            open |-> S.open, ov |-> S.ov, D |-> S.D])

Enter(g) ==
  /\ ~Opened(S, g) /\ S.ents < MaxEnter
  /\ S' = DoEnter(L, S, g)
  /\ ev' = Ev("enter", g, "", 0, TRUE, 0)
  /\ H' = Log([op |-> "enter", g |-> g])

Exit(g, exc) ==
  /\ S.gs # <<>> /\ S.gs[Len(S.gs)] = g
  /\ S' = DoExit(L, S, g)
  /\ ev' = Ev(IF exc THEN "raise" ELSE "exit", g, "", 0, TRUE, 0)
  /\ H' = Log([op |-> "exit", g |-> g])

SetOv(g, b) ==
  /\ HasDl(L, g)
  /\ \E l \in InGrp(L, g) : S.ov[l] # b
  /\ S' = DoOv(L, S, g, b)
  /\ ev' = Ev("ov", g, "", IF b THEN 1 ELSE 0, TRUE, 0)
  /\ H' = H

Next == \/ \E s \in Srcs, v \in Vals : Call(s, v)
        \/ \E g \in 1..NG : Enter(g) \/ Exit(g, FALSE) \/ Exit(g, TRUE)
        \/ \E g \in 1..NG, b \in BOOLEAN : SetOv(g, b)

Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, e |-> ev', t |-> Vars']))

-----------------------------------------------------------------------------
(* Properties, stated on the history H of calls and context changes          *)
LastEnter(g) == LET ks == {k \in 1..Len(H) : H[k].op = "enter" /\ H[k].g = g}
                IN  IF ks = {} THEN Len(H) + 1 ELSE CHOOSE k \in ks : \A j \in ks : j <= k

IsIn(l, s) == \E k \in 1..Len(s) : s[k] = l

\* C12: the records are those of the completed (non-nested) calls of the
\* source made while the most recent context was open (Vals without 9)
RecExact ==
  \A l \in 1..Len(L) : IsRec(L, l) =>
    LET lo == LastEnter(L[l].grp)
        \* deliveries above l that answered (or refused) before l was reached
        Above(k) == {j \in 1..Len(H[k].open) :
                       /\ L[H[k].open[j]].kind = "dl" /\ Below(H[k].src, L[H[k].open[j]].src)
                       /\ \E i \in 1..(j-1) : H[k].open[i] = l}
        Seen(k) == /\ H[k].ok
                   /\ \A j \in Above(k) : ~H[k].ov[H[k].open[j]]
        RECURSIVE Want(_)
        Want(k) == IF k > Len(H) THEN <<>>
                   ELSE (IF H[k].op = "call" /\ Below(H[k].src, L[l].src)
                            /\ IsIn(l, H[k].open) /\ Seen(k)
                         THEN <<IF L[l].kind = "in" THEN H[k].v ELSE H[k].r>>
                         ELSE <<>>) \o Want(k+1)
    IN  S.D[l] = Want(lo)

\* C13: a queue never exceeds its capacity, a failed call changes no queue of
\* a single-delivery chain, an overriding call runs no original
HBound == HMax = 0 \/ Len(H) < HMax
QueueBound == \A l \in 1..Len(L) : L[l].kind = "dl" => Len(S.D[l]) <= L[l].cap
DlStep ==
  [][\A l \in 1..Len(L) : L[l].kind = "dl" =>
       \/ S'.D[l] = S.D[l]
       \/ S.ov[l] /\ S.D[l] # <<>> /\ S'.D[l] = Tail(S.D[l]) /\ ev'.op = "call"
       \/ ~S.ov[l] /\ ev'.op = "call"
            /\ S'.D[l] = Append(S.D[l], S'.D[l][Len(S'.D[l])])
            /\ Len(S.D[l]) < L[l].cap]_<<S, ev, H>>
OverrideRunsNothing ==
  [][(ev'.op = "call" /\ LET c == Chain(L, S, ev'.src) IN
        c # <<>> /\ L[c[Len(c)]].kind = "dl" /\ S.ov[c[Len(c)]])
     => S'.n = S.n /\ (ev'.ok => ev'.r = Head(S.D[LET c == Chain(L, S, ev'.src) IN c[Len(c)]]))]_<<S, ev, H>>
\* nothing open: the call is the plain call
PlainWhenClosed ==
  [][(ev'.op = "call" /\ Chain(L, S, ev'.src) = <<>>) => S'.D = S.D /\ S'.n > S.n]_<<S, ev, H>>
=============================================================================
