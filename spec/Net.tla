--------------------------------- MODULE Net ---------------------------------
(* Networks as straight-line programs over channel tokens, and what follows   *)
(* from them for channel pruning.                                             *)
(*                                                                            *)
(* A program is a sequence of operations [op, a, l, o, g]:                    *)
(*   op  "conv"  convolution, o output channels, g groups (1: plain,          *)
(*               g = o = input channels: depthwise)                           *)
(*       "lin"   linear layer with o outputs (after gap / flat)               *)
(*       "bn"    batch norm       "gn" group norm with g groups               *)
(*       "act"   activation, pooling, anything channelwise without weights    *)
(*       "add"   elementwise combination of the variables a                   *)
(*       "cat"   concatenation of the variables a along the channels          *)
(*       "gap"   global pooling to a vector                                   *)
(*       "flat"  flattening: every channel becomes g features                 *)
(*       "half"  one half (o = 1, 2) of the channels                          *)
(*   a   operands: variables, 0 = the network input, i = result of step i     *)
(*   l   layer; using a layer again shares it                                 *)
(* Results nobody uses are the outputs of the network.                        *)
(*                                                                            *)
(* A token stands for a channel created by the input or by a layer; lab gives *)
(* the class of tokens that can only be removed together; frozen tokens may   *)
(* not be removed.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Min(a, b) == IF a < b THEN a ELSE b
Weighted == {"conv", "lin", "bn"}        \* layers with channels to list

\* state: vars[i+1] tokens of variable i; map[i+1] TRUE for feature maps;
\* lab, frz per token; lay[l] = [k, i, o, g, u] the tokens of layer l's input
\* and output channels (k = "none": not used yet); fresh: tokens of each
\* variable were made by which step (not needed); used: variables consumed
Start(cin, nl) ==
  [vars |-> <<[k \in 1..cin |-> k]>>, map |-> <<TRUE>>,
   lab |-> [k \in 1..cin |-> k], frz |-> [k \in 1..cin |-> TRUE],
   lay |-> [l \in 1..nl |-> [k |-> "none", i |-> <<>>, o |-> <<>>, g |-> 0, n |-> 0]],
   use |-> <<0>>]

\* labels are canonical: the least token of the class
Merge(lab, a, b) ==
  IF lab[a] = lab[b] THEN lab
  ELSE LET lo == Min(lab[a], lab[b])
           hi == lab[a] + lab[b] - lo
       IN  [t \in DOMAIN lab |-> IF lab[t] = hi THEN lo ELSE lab[t]]
RECURSIVE Couple(_, _, _)
Couple(lab, s, t) ==        \* positionwise
  IF s = <<>> THEN lab ELSE Couple(Merge(lab, s[1], t[1]), Tail(s), Tail(t))
RECURSIVE GroupC(_, _, _, _)
GroupC(lab, s, n, k) ==     \* s[k] with the same position of the first group
  IF k > Len(s) THEN lab
  ELSE GroupC(Merge(lab, s[k], s[((k - 1) % n) + 1]), s, n, k + 1)
Grouped(lab, s, g) == IF g <= 1 THEN lab ELSE GroupC(lab, s, Len(s) \div g, 1)
Freeze(frz, s) == [t \in DOMAIN frz |-> frz[t] \/ \E k \in 1..Len(s) : s[k] = t]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
RECURSIVE CoupleAll(_, _, _)
CoupleAll(lab, s, ss) == IF ss = <<>> THEN lab ELSE CoupleAll(Couple(lab, s, ss[1]), s, Tail(ss))

Tokens(st, v) == st.vars[v + 1]
Width(st, v) == Len(Tokens(st, v))
IsDw(st, e) == e.op = "conv" /\ e.g > 1 /\ e.g = e.o /\ e.g = Width(st, e.a[1])
Passes(st, e) == e.op \in {"bn", "gn"} \/ IsDw(st, e)

\* is e a legal next step (the program is a runnable network)
New(st, e) == st.lay[e.l].k = "none"
Legal(st, e) ==
  /\ \A k \in 1..Len(e.a) : e.a[k] < Len(st.vars)
  /\ LET x == e.a[1]
         c == Width(st, x)
     IN  CASE e.op = "conv" -> /\ st.map[x + 1] /\ c % e.g = 0 /\ e.o % e.g = 0
                               /\ (New(st, e) \/ (st.lay[e.l].k = "conv" /\ Len(st.lay[e.l].i) = c
                                                  /\ st.lay[e.l].g = e.g /\ Len(st.lay[e.l].o) = e.o))
           [] e.op = "lin" -> /\ ~st.map[x + 1]
                              /\ (New(st, e) \/ (st.lay[e.l].k = "lin" /\ Len(st.lay[e.l].i) = c
                                                 /\ Len(st.lay[e.l].o) = e.o))
           [] e.op = "bn" -> /\ st.map[x + 1]
                             /\ (New(st, e) \/ (st.lay[e.l].k = "bn" /\ Len(st.lay[e.l].i) = c))
           [] e.op = "gn" -> st.map[x + 1] /\ c % e.g = 0 /\ New(st, e)
           [] e.op = "act" -> TRUE
           [] e.op \in {"add", "cat"} -> \A k \in 1..Len(e.a) : /\ st.map[e.a[k] + 1] = st.map[x + 1]
                                                              /\ (e.op = "add" => Width(st, e.a[k]) = c)
           [] e.op \in {"gap", "flat"} -> st.map[x + 1]
           [] e.op = "half" -> c % 2 = 0

\* append a result with tokens ts; n new tokens (labelled by themselves)
Put(st, e, ts, ismap) ==
  [st EXCEPT !.vars = Append(@, ts), !.map = Append(@, ismap), !.use = Append([k \in 1..Len(@) |->
       IF \E j \in 1..Len(e.a) : e.a[j] + 1 = k THEN 1 ELSE @[k]], 0)]
Fresh(st, n) == [k \in 1..n |-> Len(st.lab) + k]
WithFresh(st, n) == [st EXCEPT !.lab = @ \o Fresh(st, n), !.frz = @ \o [k \in 1..n |-> FALSE]]

Apply(st, e) ==
  LET x == Tokens(st, e.a[1])
      m == st.map[e.a[1] + 1]
  IN
  CASE e.op \in {"conv", "lin", "bn", "gn"} ->
         LET first == New(st, e)
             pass == Passes(st, e)
             n == IF first /\ ~pass THEN e.o ELSE 0
             s1 == WithFresh(st, n)
             L == IF first THEN [k |-> e.op, i |-> x, o |-> IF pass THEN x ELSE Fresh(st, e.o), g |-> e.g, n |-> 1]
                  ELSE [st.lay[e.l] EXCEPT !.n = @ + 1]
             lab1 == IF first THEN s1.lab ELSE Couple(s1.lab, L.i, x)
             lab2 == IF pass \/ e.op # "conv" THEN lab1
                     ELSE Grouped(Grouped(lab1, x, e.g), L.o, e.g)
             frz2 == IF e.op = "gn" THEN Freeze(s1.frz, x) ELSE s1.frz
         IN  Put([s1 EXCEPT !.lab = lab2, !.frz = frz2, !.lay[e.l] = L], e, L.o, m)
    [] e.op = "act" -> Put(st, e, x, m)
    [] e.op = "gap" -> Put(st, e, x, FALSE)
    [] e.op = "flat" -> Put(st, e, Flatten([k \in 1..Len(x) |-> [j \in 1..e.g |-> x[k]]]), FALSE)
    [] e.op = "add" -> Put([st EXCEPT !.lab = CoupleAll(@, x, [k \in 1..(Len(e.a) - 1) |-> Tokens(st, e.a[k + 1])])], e, x, m)
    [] e.op = "cat" -> Put(st, e, Flatten([k \in 1..Len(e.a) |-> Tokens(st, e.a[k])]), m)
    [] e.op = "half" ->
         LET h == Len(x) \div 2
             s1 == WithFresh([st EXCEPT !.frz = Freeze(@, x)], h)
         IN  Put([s1 EXCEPT !.frz = Freeze(@, Fresh(st, h))], e, Fresh(st, h), m)

\* the outputs of the network may not be pruned
Outputs(st) == {v \in 1..(Len(st.vars) - 1) : st.use[v + 1] = 0}
RECURSIVE FreezeAll(_, _, _)
FreezeAll(st, frz, vs) == IF vs = {} THEN frz
  ELSE LET v == CHOOSE v \in vs : TRUE IN FreezeAll(st, Freeze(frz, Tokens(st, v)), vs \ {v})
Finish(st) == [st EXCEPT !.frz = FreezeAll(st, @, Outputs(st))]

\* classes that may be pruned
Frozen(st) == {st.lab[t] : t \in {t \in DOMAIN st.lab : st.frz[t]}}
Used(st) == {l \in DOMAIN st.lay : st.lay[l].k # "none"}
Listed(st) == {l \in Used(st) : st.lay[l].k \in Weighted}
Side(st, l, out) == IF out = 1 THEN st.lay[l].o ELSE st.lay[l].i
Prunable(st) ==     \* classes
  {st.lab[t] : t \in DOMAIN st.lab} \ Frozen(st)

\* classes whose removal would leave some layer without channels: an analysis
\* may or may not offer them
Emptying(st) ==
  {c \in Prunable(st) : \E l \in Listed(st), out \in {0, 1} :
      \A k \in 1..Len(Side(st, l, out)) : st.lab[Side(st, l, out)[k]] = c}

\* a class that fills several positions of one group of a grouped convolution:
\* such entangled groups are refused by the analysis (a known finding)
Entangled(st) ==
  \E l \in Used(st) : /\ st.lay[l].k = "conv" /\ st.lay[l].g > 1
                     /\ \E out \in {0, 1} :
                          LET s == Side(st, l, out)
                              n == Len(s) \div st.lay[l].g
                          IN  \E i, j \in 1..n : i < j /\ st.lab[s[i]] = st.lab[s[j]]

-----------------------------------------------------------------------------
(* An analysis result: a sequence of units [n, ch], ch a sequence of          *)
(* [l, out, s, e]: channels s .. e-1 of layer l belong to the unit, each of   *)
(* its n positions standing for (e - s) / n consecutive ones.                 *)
Cover(st, units, l, out, i) ==       \* <<unit, position>>s of channel i (from 0)
  {<<u, ((i - units[u].ch[c].s) * units[u].n) \div (units[u].ch[c].e - units[u].ch[c].s)>> :
     <<u, c>> \in {<<u, c>> \in (1..Len(units)) \X (1..100) :
        /\ c <= Len(units[u].ch)
        /\ units[u].ch[c].l = l /\ units[u].ch[c].out = out
        /\ units[u].ch[c].s <= i /\ i < units[u].ch[c].e}}
Times(units, l, out, i) ==           \* in how many listed ranges
  Cardinality({<<u, c>> \in (1..Len(units)) \X (1..100) :
        /\ c <= Len(units[u].ch)
        /\ units[u].ch[c].l = l /\ units[u].ch[c].out = out
        /\ units[u].ch[c].s <= i /\ i < units[u].ch[c].e})

UnitsBad(st, units) ==
  LET pr == Prunable(st)
      must == pr \ Emptying(st)
      wrongrange == \E u \in 1..Len(units) : \E c \in 1..Len(units[u].ch) :
          LET q == units[u].ch[c] IN
          \/ q.l \notin Listed(st)
          \/ q.s < 0 \/ q.e <= q.s \/ q.e > Len(Side(st, q.l, q.out))
          \/ (q.e - q.s) % units[u].n # 0
      chans == UNION {{<<l, out, i>> : i \in 1..Len(Side(st, l, out))} : l \in Listed(st), out \in {0, 1}}
      cls(c) == st.lab[Side(st, c[1], c[2])[c[3]]]
      tm(c) == Times(units, c[1], c[2], c[3] - 1)
      pos(c) == CHOOSE p \in Cover(st, units, c[1], c[2], c[3] - 1) : TRUE
      lst == {c \in chans : tm(c) = 1}
      pairs == {<<pos(c), cls(c)>> : c \in lst}
  IN  CASE wrongrange -> "a unit lists channels a layer does not have"
        [] \E c \in chans : cls(c) \notin pr /\ tm(c) > 0 -> "a unit lists a channel that may not be pruned"
        [] \E c \in chans : cls(c) \in must /\ tm(c) = 0 -> "a prunable channel is in no unit"
        [] \E c \in chans : tm(c) > 1 -> "a channel is listed more than once"
        [] Cardinality(pairs) # Cardinality({p[2] : p \in pairs}) -> "coupled channels are in different units or positions"
        [] Cardinality(pairs) # Cardinality({p[1] : p \in pairs}) -> "channels that are not coupled are pruned together"
        [] OTHER -> ""

-----------------------------------------------------------------------------
(* Pruned networks: kept[c] for classes c.  Everything below is what C07,     *)
(* C08 and C18 compare.                                                       *)
KeptSeq(st, kept, s) == SelectSeq(s, LAMBDA t : st.lab[t] \in kept)
Mask(st, kept, s) == [k \in 1..Len(s) |-> IF st.lab[s[k]] \in kept THEN 1 ELSE 0]
Consistent(st, kept) ==      \* the pruned program is a runnable network
  /\ Frozen(st) \subseteq kept
  /\ \A l \in Used(st) : LET L == st.lay[l] IN
       L.g > 1 /\ L.k = "conv" /\ L.i # L.o =>   \* depthwise: the groups go with the channels
         LET per(s, q) == Cardinality({k \in 1..Len(s) : st.lab[s[k]] \in kept
                              /\ (k - 1) \div (Len(s) \div L.g) = q})
         IN  \A q \in 0..(L.g - 1) : per(L.i, q) = per(L.i, 0) /\ per(L.o, q) = per(L.o, 0)

\* the program st came from, on the kept channels only, is legal step by step:
\* the same operands fit together wherever the full ones did
StepFits(st, kept, e) ==       \* st: the finished state of the program
  LET x == Mask(st, kept, Tokens(st, e.a[1]))
      same(m) == \A k \in 1..Len(m) : m[k] = x[k]
  IN  CASE e.op = "add" -> \A k \in 1..Len(e.a) : same(Mask(st, kept, Tokens(st, e.a[k])))
        [] e.op \in {"conv", "lin", "bn", "gn"} -> same(Mask(st, kept, st.lay[e.l].i))
        [] OTHER -> TRUE
Kept(st, C) == {st.lab[t] : t \in DOMAIN st.lab} \ C
=============================================================================
