----------------------------- MODULE PruneTrace -----------------------------
(* Recorded lives of real networks prepared for channel pruning, against      *)
(* Net.tla and Widths.tla.                                                    *)
(* par = [cin, nl, hw, prefix, d, mn, rt]; events: the program's steps, then  *)
(*   done                  the program is complete                            *)
(*   prep   [units]        the units a mutator prepared: [n, ch] as in Net    *)
(*   choose [by, req, w, m] widths were requested ("" = kept; by "set") or    *)
(*                         sampled; w, m: the units' widths and masks read    *)
(*   masks  [lay]          in / out masks of the layers                       *)
(*   run    [ok, w, close] one forward pass: widths of all variables, whether *)
(*                         the values are those of the sliced network         *)
(*   static [lay, dyn, same] an exported / loaded network: layer shapes,      *)
(*                         searchable parts left, supernet untouched          *)
(*   cost   [lay, flops, params, same]  an estimate: per layer [l, k, b] the  *)
(*                         kernel size and bias, totals and per-layer numbers *)
EXTENDS TraceCheck, FiniteSets
N == INSTANCE Net
W == INSTANCE Widths
TStart(par) == [p |-> <<>>, n |-> N!Start(par.cin, par.nl), u |-> <<>>, kept |-> {}, m |-> <<>>]

All(n) == {n.lab[t] : t \in DOMAIN n.lab}
\* the classes at every position of a unit
First(u) == u.ch[1]
At(n, u, pos) ==
  LET q == First(u)
      r == (q.e - q.s) \div u.n
  IN  n.lab[N!Side(n, q.l, q.out)[q.s + pos * r + 1]]
Gone(n, us, m) == UNION {{At(n, us[k], pos) : pos \in {pos \in 0..(us[k].n - 1) : m[k][pos + 1] = 0}} : k \in 1..Len(us)}
Ones(m) == Cardinality({k \in 1..Len(m) : m[k] = 1})
Prefix(m) == \A k \in 1..(Len(m) - 1) : m[k + 1] = 1 => m[k] = 1

ChooseBad(par, st, e) ==
  CASE Len(e.m) # Len(st.u) -> "machinery: units"
    [] \E k \in 1..Len(e.m) : Len(e.m[k]) # st.u[k].n -> "a unit's mask has another length than the unit"
    [] \E k \in 1..Len(e.m) : Ones(e.m[k]) # e.w[k] -> "a unit keeps another number of channels than its choice says"
    [] \E k \in 1..Len(e.m) : e.w[k] < 1 -> "a unit keeps no channel"
    [] par.prefix = 1 /\ \E k \in 1..Len(e.m) : ~Prefix(e.m[k]) -> "a unit does not keep its first channels"
    [] e.by = "set" /\ \E k \in 1..Len(e.m) : e.req[k].k # "" /\
         e.w[k] # W!Width(st.u[k].n, e.req[k], par.d, par.mn, par.rt) -> "the chosen width is not the nearest legal one"
    [] e.by = "set" /\ \E k \in 1..Len(e.m) : e.req[k].k = "" /\ e.m[k] # st.m[k] -> "choosing one unit's width changed another unit"
    [] e.by = "sample" /\ par.mn > 0 /\ \E k \in 1..Len(e.m) :
         e.w[k] \notin W!Legal(st.u[k].n, par.d, par.mn, par.rt) -> "a sampled width is not legal"
    [] OTHER -> ""

MasksBad(st, e) ==
  IF \E k \in 1..Len(e.lay) : LET q == e.lay[k] IN
       \/ q.i # N!Mask(st.n, st.kept, st.n.lay[q.l].i)
       \/ q.o # N!Mask(st.n, st.kept, st.n.lay[q.l].o)
  THEN "a layer does not keep the channels its units keep" ELSE ""

KeptW(st, v) == Len(N!KeptSeq(st.n, st.kept, N!Tokens(st.n, v)))
RunBad(st, e) ==
  CASE e.ok = 0 -> "the forward pass fails"
    [] Len(e.w) # Len(st.n.vars) - 1 -> "machinery: run"
    [] \E v \in 1..Len(e.w) : e.w[v] # KeptW(st, v) -> "a layer does not produce exactly the kept channels"
    [] e.close = 0 -> "the network does not compute what the sliced network computes"
    [] OTHER -> ""

\* shapes of the static network
GroupsOf(st, l) == LET L == st.n.lay[l] IN
  IF L.i = L.o /\ L.k = "conv" THEN Len(N!KeptSeq(st.n, st.kept, L.i)) ELSE L.g
StaticBad(st, e) ==
  CASE e.dyn > 0 -> "the exported network still has searchable parts"
    [] \E k \in 1..Len(e.lay) : LET q == e.lay[k] L == st.n.lay[q.l] IN
         \/ q.i # Len(N!KeptSeq(st.n, st.kept, L.i))
         \/ q.o # Len(N!KeptSeq(st.n, st.kept, L.o))
         \/ (L.k = "conv" /\ q.g # GroupsOf(st, q.l)) -> "an exported layer has not the chosen shape"
    [] e.same = 0 -> "exporting changed the searchable network"
    [] OTHER -> ""

\* what a mutator writes down, given to a fresh one
RoundBad(st, e) ==
  CASE e.same = 0 -> "writing the configuration down changed the network"
    [] e.names # e.old -> "the fresh mutator has other units"
    [] e.units # st.u -> "the fresh mutator assigns other channels to the units"
    [] e.widths = 1 /\ e.m # st.m -> "the fresh mutator has other widths"
    [] \E k \in 1..Len(e.m) : Ones(e.m[k]) # e.w[k] -> "a unit keeps another number of channels than its choice says"
    [] OTHER -> ""

\* operation and parameter counts, per application
LayCost(st, q) ==
  LET L == st.n.lay[q.l]
      i == Len(N!KeptSeq(st.n, st.kept, L.i))
      o == Len(N!KeptSeq(st.n, st.kept, L.o))
  IN  CASE L.k = "conv" -> [p |-> (i \div GroupsOf(st, q.l)) * o * q.k * q.k + q.b * o,
                            f |-> q.hw * q.hw * ((i \div GroupsOf(st, q.l)) * o * q.k * q.k + q.b * o)]
        [] L.k = "lin" -> [p |-> i * o + q.b * o, f |-> i * o]
        [] L.k \in {"bn", "gn"} -> [p |-> 2 * i, f |-> 2 * i * q.hw * q.hw]
        [] OTHER -> [p |-> 0, f |-> 0]
RECURSIVE Sum(_, _, _, _)
Sum(st, lay, field, k) ==
  IF k > Len(lay) THEN 0
  ELSE lay[k].n * (IF field = "p" THEN LayCost(st, lay[k]).p ELSE LayCost(st, lay[k]).f)
       + Sum(st, lay, field, k + 1)
CostBad(st, e) ==
  CASE e.same = 0 -> "estimating changed the network"
    [] \E k \in 1..Len(e.lay) : /\ e.lay[k].n # Cardinality({j \in 1..Len(st.p) : st.p[j].op \in {"conv", "lin", "bn", "gn"} /\ st.p[j].l = e.lay[k].l}) -> "machinery: uses"
    [] e.params # Sum(st, e.lay, "p", 1) -> "the parameters are not the sum over the layers"
    [] e.flops # Sum(st, e.lay, "f", 1) -> "the operations are not the sum over the layers' uses"
    [] OTHER -> ""

TStep(par, s, e) ==
  CASE e.op = "done" -> LET n == N!Finish(s.n) IN
                        [st |-> [s EXCEPT !.n = n, !.kept = All(n)], bad |-> ""]
    [] e.op = "prep" -> [st |-> [s EXCEPT !.u = e.units, !.m = [k \in 1..Len(e.units) |-> [j \in 1..e.units[k].n |-> 1]]],
                         bad |-> N!UnitsBad(s.n, e.units)]
    [] e.op = "failed" -> [st |-> s, bad |-> IF N!Entangled(s.n) THEN "skip" ELSE "preparing the network fails"]
    [] e.op = "choose" ->
         LET b == ChooseBad(par, s, e)
         IN  IF b # "" THEN [st |-> s, bad |-> b]
             ELSE LET k == All(s.n) \ Gone(s.n, s.u, e.m)
                  IN  [st |-> [s EXCEPT !.m = e.m, !.kept = k],
                       bad |-> IF ~N!Consistent(s.n, k) \/ \E j \in 1..Len(s.p) : ~N!StepFits(s.n, k, s.p[j])
                               THEN "the kept channels do not fit together" ELSE ""]
    [] e.op = "masks" -> [st |-> s, bad |-> MasksBad(s, e)]
    [] e.op = "run" -> [st |-> s, bad |-> RunBad(s, e)]
    [] e.op = "static" -> [st |-> s, bad |-> StaticBad(s, e)]
    [] e.op = "round" -> [st |-> s, bad |-> RoundBad(s, e)]
    [] e.op = "cost" -> [st |-> s, bad |-> CostBad(s, e)]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
    [] OTHER -> IF N!Legal(s.n, e) THEN [st |-> [s EXCEPT !.n = N!Apply(s.n, e), !.p = Append(@, e)], bad |-> ""]
                ELSE [st |-> s, bad |-> "machinery: illegal program"]
=============================================================================
