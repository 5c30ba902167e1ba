------------------------------- MODULE Elements -------------------------------
(* Searchable values and channels, and the elements derived from them.       *)
(* A configuration is [src, der]: src a sequence of [kind, n, cand] with      *)
(*   "val"   a value with the (sorted) candidates cand                        *)
(*   "seq"   n channels, any number of the first ones can be kept             *)
(*   "osc"   n channels, the kept numbers are the candidates cand             *)
(*   "simple" n channels, any of them can be kept                             *)
(* and der a sequence of [op, a, k, d]: derivation op applied to the elements *)
(* numbered a (sources first) with the parameters k and d.                    *)
(* All scalars are in quarters, so that the ratios used are exact.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* round to a multiple of d, at least d, not losing more than a tenth
MakeDiv(x, d) == LET nv == Max2(d, (((2*x + d) \div 2) \div d) * d)
                 IN  IF 10 * nv < 9 * x THEN nv + d ELSE nv
Prefix(n, k) == [j \in 1..n |-> IF j <= k THEN 1 ELSE 0]
Ones(s) == Cardinality({j \in 1..Len(s) : s[j] = 1})
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Repeat(s, k) == [j \in 1..(Len(s) * k) |-> s[((j - 1) \div k) + 1]]
Range(s) == {s[j] : j \in 1..Len(s)}

---------------------------------------------------------------------------
\* the state: per source the choice (<<value>>; <<number of kept channels>>;
\* the mask of a simple one) and whether it is fixed
Start(c) == [c |-> [i \in 1..Len(c.src) |->
                      CASE c.src[i].kind = "val" -> <<c.src[i].cand[Len(c.src[i].cand)]>>
                        [] c.src[i].kind = "simple" -> Prefix(c.src[i].n, c.src[i].n)
                        [] OTHER -> <<c.src[i].n>>],
             fx |-> [i \in 1..Len(c.src) |-> FALSE]]

\* is v a choice of source i (numbers of channels may exceed the width)
Legal(c, i, v) == CASE c.src[i].kind \in {"val", "osc"} -> v[1] \in Range(c.src[i].cand)
                    [] OTHER -> TRUE
Held(c, i, v) == IF c.src[i].kind = "seq" THEN <<Min2(v[1], c.src[i].n)>> ELSE v
Assign(c, st, i, v) == IF Legal(c, i, v) THEN [st |-> [st EXCEPT !.c[i] = Held(c, i, v)], ok |-> TRUE]
                       ELSE [st |-> st, ok |-> FALSE]
Fix(c, st, i, v) == IF st.fx[i] \/ ~Legal(c, i, v) THEN [st |-> st, ok |-> FALSE]
                    ELSE [st |-> [st EXCEPT !.c[i] = Held(c, i, v), !.fx[i] = TRUE], ok |-> TRUE]
FixAsIs(c, st, i) == IF st.fx[i] \/ ~Legal(c, i, st.c[i]) THEN [st |-> st, ok |-> FALSE]
                     ELSE [st |-> [st EXCEPT !.fx[i] = TRUE], ok |-> TRUE]
Unfix(c, st, i) == [st |-> st, ok |-> ~st.fx[i]]

\* ---- what elements report: [ch (quarters, -1 none), mk (mask, <<>> none), has]
SrcVal(c, st, i) ==
  CASE c.src[i].kind = "val" -> [ch |-> st.c[i][1], mk |-> <<>>, has |-> FALSE]
    [] c.src[i].kind = "simple" -> [ch |-> -1, mk |-> st.c[i], has |-> TRUE]
    [] OTHER -> [ch |-> 4 * st.c[i][1], mk |-> Prefix(c.src[i].n, st.c[i][1]), has |-> TRUE]
RECURSIVE Val(_, _, _)
Val(c, st, e) ==
  IF e <= Len(c.src) THEN SrcVal(c, st, e)
  ELSE LET d == c.der[e - Len(c.src)]
           A == Val(c, st, d.a[1])
           times(x, k4) == ((x * k4) \div 16) * 4
           div(x4, r, dv) == 4 * MakeDiv(x4 \div (4 * r), dv)
           pref(size4, ch4) == Prefix(size4 \div 4, ch4 \div 4)
           scaled(k4) == LET ch == times(A.ch, k4)
                         IN  [ch |-> ch, has |-> A.has,
                              mk |-> IF A.has THEN pref(times(4 * Len(A.mk), k4), ch) ELSE <<>>]
       IN CASE d.op = "same" -> scaled(4)
            [] d.op = "mul" -> scaled(d.k)           \* by a constant
            [] d.op = "div" -> LET ch == div(A.ch, d.k, d.d)
                               IN  [ch |-> ch, has |-> A.has,
                                    mk |-> IF A.has THEN pref(div(4 * Len(A.mk), d.k, d.d), ch) ELSE <<>>]
            [] d.op = "mulval" ->                    \* by the choice of a value
                 LET vi == d.a[2]
                     cs == c.src[vi].cand
                     ch == times(A.ch, st.c[vi][1])
                 IN  [ch |-> ch, has |-> A.has,
                      mk |-> IF ~A.has THEN <<>> ELSE pref(times(4 * Len(A.mk), cs[Len(cs)]), ch)]
            [] d.op = "cat" -> [ch |-> Sum([j \in 1..Len(d.a) |-> Val(c, st, d.a[j]).ch]), has |-> TRUE,
                                mk |-> Flat([j \in 1..Len(d.a) |-> Val(c, st, d.a[j]).mk])]
            [] d.op = "repeat" -> [ch |-> -1, has |-> TRUE, mk |-> Repeat(A.mk, d.k)]
RECURSIVE Sources(_, _)
Sources(c, e) == IF e <= Len(c.src) THEN {e}
                 ELSE UNION {Sources(c, c.der[e - Len(c.src)].a[j]) : j \in 1..Len(c.der[e - Len(c.src)].a)}
AllFixed(c, st, e) == \A i \in Sources(c, e) : st.fx[i]
Report(c, st, e) == [v |-> Val(c, st, e), fx |-> AllFixed(c, st, e)]

\* every choice the derived element e can have, one per combination
Combos(c, e) == LET ss == Sources(c, e)
                IN  {f \in [ss -> UNION {Range(c.src[i].cand) : i \in ss}] :
                        \A i \in ss : f[i] \in Range(c.src[i].cand)}
With(st, f) == [st EXCEPT !.c = [i \in 1..Len(st.c) |-> IF i \in DOMAIN f THEN <<f[i]>> ELSE st.c[i]]]
Enumerable(c, e) == \A i \in Sources(c, e) : c.src[i].kind = "val"
\* how often x occurs among the enumerated choices
Times(c, st, e, x) == Cardinality({f \in Combos(c, e) : Val(c, With(st, f), e).ch = x})

---------------------------------------------------------------------------
VARIABLES S, ev
Vars == S
Cfg == Configs[S.ci]
NS == Len(Cfg.src)
NE == NS + Len(Cfg.der)
Stt == [c |-> S.c, fx |-> S.fx]
Put(st) == S' = [ci |-> S.ci, c |-> st.c, fx |-> st.fx]
Ev(op, i, v, ok) == [op |-> op, i |-> i, v |-> v, ok |-> ok]
Init == /\ S \in {[ci |-> x, c |-> Start(Configs[x]).c, fx |-> Start(Configs[x]).fx] : x \in 1..Len(Configs)}
        /\ ev = Ev("init", 0, <<>>, TRUE)
Bits(n) == [1..n -> {0, 1}]
\* what is tried: legal choices and illegal ones
Tries(i) == LET s == Cfg.src[i]
            IN  CASE s.kind = "val" -> {<<v>> : v \in Range(s.cand) \cup {s.cand[1] + 1, -4}}
                  [] s.kind = "seq" -> {<<v>> : v \in 1..(s.n + 1)}
                  [] s.kind = "osc" -> {<<v>> : v \in 1..(s.n + 1)}
                  [] s.kind = "simple" -> Bits(s.n)
DAssign(i, v) == /\ ~S.fx[i]
                 /\ LET R == Assign(Cfg, Stt, i, v) IN Put(R.st) /\ ev' = Ev("assign", i, v, R.ok)
DFix(i, v) == LET R == Fix(Cfg, Stt, i, v) IN Put(R.st) /\ ev' = Ev("fix", i, v, R.ok)
DFixAsIs(i) == /\ Cfg.src[i].kind # "val"
               /\ LET R == FixAsIs(Cfg, Stt, i) IN Put(R.st) /\ ev' = Ev("fixasis", i, <<>>, R.ok)
DUnfix(i) == LET R == Unfix(Cfg, Stt, i) IN Put(R.st) /\ ev' = Ev("unfix", i, <<>>, R.ok)
\* operations on derived elements never change anything
DDer(i, op) == UNCHANGED S /\ ev' = Ev(op, i, <<>>, op \notin {"setder", "maskder", "unfixder"})
Next == \/ \E i \in 1..NS : \/ \E v \in Tries(i) : DAssign(i, v) \/ DFix(i, v)
                            \/ DFixAsIs(i) \/ DUnfix(i)
        \/ \E i \in (NS+1)..NE : \/ \E op \in {"setder", "maskder", "unfixder", "fixder"} : DDer(i, op)
                                 \/ Enumerable(Cfg, i) /\ DDer(i, "enum")
        \/ \E i \in 1..NS : Cfg.src[i].kind = "val" /\ UNCHANGED S /\ ev' = Ev("sample", i, <<>>, TRUE)
\* the reports of all elements are printed with each transition
Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, t |-> Vars',
           e |-> [op |-> ev'.op, i |-> ev'.i, v |-> ev'.v, ok |-> ev'.ok,
                  rep |-> [e \in 1..NE |-> Report(Cfg, [c |-> S'.c, fx |-> S'.fx], e)]]]))
---------------------------------------------------------------------------
\* C01
ChoiceLegal == \A i \in 1..NS : Cfg.src[i].kind = "val" => S.c[i][1] \in Range(Cfg.src[i].cand)
KeptAreFirst == \A i \in 1..NS : Cfg.src[i].kind \in {"seq", "osc"} =>
                  \A j, k \in 1..Cfg.src[i].n : j < k => LET m == SrcVal(Cfg, Stt, i).mk IN m[j] >= m[k]
RefusedChangesNothing == [][~ev'.ok => S' = S]_<<S, ev>>
LastAccepted == [][(ev'.op \in {"assign", "fix"} /\ ev'.ok) => S'.c[ev'.i] = Held(Cfg, ev'.i, ev'.v)]_<<S, ev>>
\* C02
FixedForEver == [][\A i \in 1..NS : S.fx[i] => (S'.fx[i] /\ S'.c[i] = S.c[i])]_<<S, ev>>
\* C03
DerivedConsistent ==
  \A e \in (NS+1)..NE :
    LET r == Val(Cfg, Stt, e)
    IN  (r.has /\ r.ch >= 0) => (r.ch % 4 = 0 /\ Ones(r.mk) = r.ch \div 4)
EnumHasCurrent == \A e \in (NS+1)..NE : Enumerable(Cfg, e) => Times(Cfg, Stt, e, Val(Cfg, Stt, e).ch) > 0
DerivedIsReadOnly == [][ev'.i > NS => S' = S]_<<S, ev>>
=============================================================================
