------------------------------ MODULE Operations ------------------------------
(* Searchable operations with n alternatives (alternative i multiplies its    *)
(* input by 2^i, so that an output tells which alternatives were executed).   *)
(* A configuration is [kind, n, thr, arch, num]:                              *)
(*   "one"   one alternative is selected (OneShotMutableOP)                   *)
(*   "diff"  weighted sum by architecture parameters (DiffMutableOP)          *)
(*   "hot"   one sampled by architecture parameters, fixed once the best      *)
(*           leads by thr quarters (OneHotMutableOP)                          *)
(*   "route" one input per alternative, the i-th being i (DiffChoiceRoute;    *)
(*           arch: whether it uses architecture parameters)                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Configs

RECURSIVE SumF(_, _)
SumF(f(_), T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE
                                       IN  f(x) + SumF(f, T \ {x})
W(c, i) == (2 ^ i) * (IF c.kind = "route" THEN i ELSE 1)
Range(s) == {s[j] : j \in 1..Len(s)}
\* ch: assigned choice (0 none, n+1 one that does not exist); keep: the
\* alternatives left; fx; chosen
Start(c) == [ch |-> 0, keep |-> [i \in 1..c.n |-> 1], fx |-> FALSE]
Kept(c, st) == {i \in 1..c.n : st.keep[i] = 1}
Sub(c, T) == [i \in 1..c.n |-> IF i \in T THEN 1 ELSE 0]
Assign(c, st, v) == [st EXCEPT !.ch = v]
Fix(c, st, vs) == IF st.fx \/ ~(Range(vs) \subseteq 1..c.n) THEN [st |-> st, ok |-> FALSE]
                  ELSE [st |-> [st EXCEPT !.keep = Sub(c, Range(vs)), !.fx = TRUE], ok |-> TRUE]
\* outputs are in quarters; -1 the forward is refused
Out(c, st) ==
  LET w(i) == 4 * W(c, i)
  IN  IF st.fx \/ c.kind # "one" \/ st.ch = 0 THEN SumF(w, Kept(c, st))
      ELSE IF st.ch \in 1..c.n THEN w(st.ch) ELSE -1
Best(p) == CHOOSE i \in 1..Len(p) : \A j \in 1..Len(p) : p[j] <= p[i]
\* p[Best] leads the others by thr
Leads(p, thr) == \A j \in 1..Len(p) : j # Best(p) => p[Best(p)] - p[j] >= thr
\* forward with architecture probabilities p (in quarters): the possible
\* outputs and the state afterwards
FwdP(c, st, p) ==
  LET pw(i) == p[i] * W(c, i)
  IN  IF st.fx \/ (c.kind = "route" /\ ~c.arch) THEN [st |-> st, outs |-> {Out(c, st)}]
      ELSE IF c.kind \in {"diff", "route"} THEN [st |-> st, outs |-> {SumF(pw, 1..c.n)}]
      ELSE IF Leads(p, c.thr) THEN [st |-> Fix(c, st, <<Best(p)>>).st, outs |-> {4 * W(c, Best(p))}]
      ELSE [st |-> st, outs |-> {4 * W(c, i) : i \in {j \in 1..c.n : p[j] > 0}}]
\* alternatives sample_choice may return, for the "one" kind; the best ones in
\* order for the others
RECURSIVE Tops(_, _, _)
Tops(p, T, k) == IF k = 0 \/ T = {} THEN <<>>
                 ELSE LET b == CHOOSE i \in T : \A j \in T : p[j] <= p[i]
                      IN  <<b>> \o Tops(p, T \ {b}, k - 1)
NoTies(p) == \A i, j \in 1..Len(p) : i # j => p[i] # p[j]

---------------------------------------------------------------------------
VARIABLES S, ev
Vars == S
Cfg == Configs[S.ci]
Stt == [ch |-> S.ch, keep |-> S.keep, fx |-> S.fx]
Put(st) == S' = [ci |-> S.ci, ch |-> st.ch, keep |-> st.keep, fx |-> st.fx]
Ev(op, v, p, ok, outs) == [op |-> op, v |-> v, p |-> p, ok |-> ok, outs |-> outs]
Init == /\ S \in {[ci |-> x, ch |-> 0, keep |-> Start(Configs[x]).keep, fx |-> FALSE] : x \in 1..Len(Configs)}
        /\ ev = Ev("init", <<>>, <<>>, TRUE, {})
Probs(n) == {p \in [1..n -> 0..4] : SumF(LAMBDA i : p[i], 1..n) = 4 /\ \A i \in 1..n : p[i] > 0}
DAssign(v) == Put(Assign(Cfg, Stt, v)) /\ ev' = Ev("assign", <<v>>, <<>>, TRUE, {})
FixTries == IF Cfg.kind \in {"one", "hot"} THEN {<<v>> : v \in 1..(Cfg.n + 1)}
            ELSE {<<v>> : v \in 1..(Cfg.n + 1)} \cup {<<v, w>> : v, w \in 1..(Cfg.n + 1)}
DFix(vs) == /\ (Len(vs) = 2 => vs[1] # vs[2])
            /\ LET R == Fix(Cfg, Stt, vs) IN Put(R.st) /\ ev' = Ev("fix", vs, <<>>, R.ok, {})
DUnfix == UNCHANGED S /\ ev' = Ev("unfix", <<>>, <<>>, ~S.fx, {})
DFwd == UNCHANGED S /\ ev' = Ev("fwd", <<>>, <<>>, Out(Cfg, Stt) >= 0, {Out(Cfg, Stt)})
DFwdP(p) == /\ Cfg.kind # "one"
            /\ LET R == FwdP(Cfg, Stt, p) IN Put(R.st) /\ ev' = Ev("fwdp", <<>>, p, TRUE, R.outs)
DSample == /\ Cfg.kind = "one" /\ ~S.fx /\ UNCHANGED S
           /\ ev' = Ev("sample", <<>>, <<>>, TRUE, Kept(Cfg, Stt))
Next == \/ \E v \in 1..(Cfg.n + 1) : DAssign(v)
        \/ \E vs \in FixTries : DFix(vs)
        \/ DUnfix \/ DFwd \/ DSample
        \/ \E p \in Probs(Cfg.n) : DFwdP(p)
Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, t |-> Vars', e |-> ev']))
---------------------------------------------------------------------------
\* C02: once fixed, what is kept and computed never changes
FixedForEver == [][S.fx => (S'.fx /\ S'.keep = S.keep)]_<<S, ev>>
FixedComputesKept == S.fx => LET w(i) == 4 * W(Cfg, i) IN Out(Cfg, Stt) = SumF(w, Kept(Cfg, Stt))
RefusedChangesNothing == [][~ev'.ok => S' = S]_<<S, ev>>
\* C01: an alternative that does not exist is never executed
UnknownNeverRuns == (Cfg.kind = "one" /\ ~S.fx /\ S.ch = Cfg.n + 1) => Out(Cfg, Stt) = -1
=============================================================================
