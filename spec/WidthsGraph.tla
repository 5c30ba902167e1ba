----------------------------- MODULE WidthsGraph -----------------------------
(* One prunable unit of n channels whose width is requested again and again:  *)
(* every request, as count or ratio, in every (small) unit.                   *)
EXTENDS Widths, Sequences, FiniteSets, TLC, Json
CONSTANT Configs        \* [n, d, mn, rt, qs]: qs denominators of ratios
VARIABLES S, ev
Vars == S

Requests(c) ==
  {[k |-> "num", v |-> v, q |-> 1] : v \in 1..c.n}
  \cup UNION {{[k |-> "ratio", v |-> v, q |-> c.qs[i]] : v \in 1..c.qs[i]} : i \in 1..Len(c.qs)}
Of(c, r) == Width(c.n, r, c.d, c.mn, c.rt)

Init == /\ S \in {[c |-> i, w |-> Configs[i].n] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Ask == /\ TLCGet("level") = 1
       /\ \E r \in Requests(Configs[S.c]) :
            /\ S' = [S EXCEPT !.w = Of(Configs[S.c], r)]
            /\ ev' = [op |-> "ask", r |-> r, w |-> Of(Configs[S.c], r)]
Nxt == Ask
Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, e |-> ev', t |-> Vars']))

\* never outside the unit, and legal
Inside == S.w \in 1..Configs[S.c].n
\* asking for the width one has changes nothing, as a count or as a ratio
Again == ev.op = "ask" =>
  /\ Of(Configs[S.c], [k |-> "num", v |-> S.w, q |-> 1]) = S.w
  /\ Of(Configs[S.c], [k |-> "ratio", v |-> S.w, q |-> Configs[S.c].n]) = S.w
\* a legal width is the whole unit, or a multiple of the divisor, or the least
Shape == LET c == Configs[S.c] IN
  ev.op = "ask" => \/ S.w = c.n \/ S.w % c.d = 0 \/ S.w = c.mn
\* no multiple of the divisor that is allowed lies nearer, both sides
Near == LET c == Configs[S.c] v == Asked(c.n, ev.r) Abs(x) == IF x < 0 THEN -x ELSE x IN
  ev.op = "ask" => \A k \in 1..c.n :
     (k % c.d = 0 /\ k >= c.mn /\ 10 * k >= c.rt * v) => Abs(S.w - v) <= Abs(k - v)
=============================================================================
