------------------------------ MODULE Slimming ------------------------------
(* Greedy width search over a chain of convolutions.                          *)
(* A configuration c: side (output side, per layer), k (kernel size per       *)
(* layer), bias (per layer), cin, cout (of the last layer, which no unit      *)
(* prunes), w (w[u] the increasing widths of unit u = output of layer u),     *)
(* targets (decreasing).                                                      *)
(* A subnet is a sequence of bins b[u] in 1..Len(w[u]).                       *)
(* A search q: cur (bins), done (reductions scored so far, <<b, x>>),         *)
(* found (one subnet per target reached).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Units(c) == 1..Len(c.w)
Width(c, b, i) == IF i = 0 THEN c.cin ELSE IF i > Len(c.w) THEN c.cout ELSE c.w[i][b[i]]
Cost(c, b) ==
  LET n == Len(c.w) + 1
      lay == [i \in 1..n |-> c.side[i] * c.side[i] *
               (c.k[i] * c.k[i] * Width(c, b, i - 1) * Width(c, b, i) + IF c.bias[i] = 1 THEN Width(c, b, i) ELSE 0)]
  IN  SumTo(lay, n)
Full(c) == [u \in Units(c) |-> Len(c.w[u])]
Reductions(c, b) == {[b EXCEPT ![u] = @ - 1] : u \in {u \in Units(c) : b[u] > 1}}
Start(c) == [cur |-> Full(c), done |-> {}, found |-> <<>>]
Again(q) == [q EXCEPT !.done = {}]
Over(c, q) == Len(q.found) = Len(c.targets)
Fits(c, q) == Cost(c, q.cur) <= c.targets[Len(q.found) + 1]
\* every target that the current subnet is within is delivered
RECURSIVE Deliver(_, _)
Deliver(c, q) == IF Over(c, q) \/ ~Fits(c, q) THEN q ELSE Deliver(c, [q EXCEPT !.found = Append(@, q.cur)])
CanScore(c, q, b) == ~Over(c, q) /\ ~Fits(c, q) /\ b \in Reductions(c, q.cur) /\ \A d \in q.done : d[1] # b
Score(q, b, x) == [q EXCEPT !.done = @ \cup {<<b, x>>}]
\* the subnets the search may go on with
Nexts(c, q) ==
  IF q.done # {} /\ {d[1] : d \in q.done} = Reductions(c, q.cur)
  THEN {d[1] : d \in {d \in q.done : \A o \in q.done : o[2] <= d[2]}} ELSE {}
Move(c, q, b) == Deliver(c, [cur |-> b, done |-> {}, found |-> q.found])
Stuck(c, q) == ~Over(c, q) /\ ~Fits(c, q) /\ Reductions(c, q.cur) = {}

\* ------------------------------------------------------------- the machine
\* sc[b] is the score: crash at any point, resume from the last saved state.
\* Saved after every move: cur and the targets delivered BEFORE it.
C == Configs[S.c]
Sc(b) == C.sc[SumTo([u \in 1..Len(b) |-> b[u] * C.mul[u]], Len(b))]
None == [cur |-> <<>>, done |-> {}, found |-> <<>>]
Init == /\ S \in {[c |-> i, q |-> Deliver(Configs[i], Start(Configs[i])), saved |-> None, n |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
DoScore == \E b \in Reductions(C, S.q.cur) : /\ CanScore(C, S.q, b)
                                             /\ S' = [S EXCEPT !.q = Score(@, b, Sc(b))]
                                             /\ ev' = [op |-> "score"]
DoMove == \E b \in Nexts(C, S.q) : /\ S' = [S EXCEPT !.q = Move(C, @, b), !.saved = [cur |-> b, done |-> {}, found |-> S.q.found]]
                                   /\ ev' = [op |-> "move"]
DoCrash == /\ S.n < C.crashes
           /\ S' = [S EXCEPT !.n = @ + 1,
                             !.q = Deliver(C, IF S.saved = None THEN Start(C) ELSE S.saved)]
           /\ ev' = [op |-> "crash"]
Nxt == DoScore \/ DoMove \/ DoCrash
\* the uninterrupted search (scores without ties)
RECURSIVE Whole(_, _)
Whole(c, q) ==
  LET d == Deliver(c, q) IN
  IF Over(c, d) \/ Stuck(c, d) THEN d
  ELSE LET rs == Reductions(c, d.cur)
           b == CHOOSE b \in rs : \A o \in rs : Sc(o) <= Sc(b)
       IN  Whole(c, [cur |-> b, done |-> {}, found |-> d.found])
Same == (Over(C, S.q) \/ Stuck(C, S.q)) => S.q.found = Whole(C, Start(C)).found
Within == \A i \in 1..Len(S.q.found) : Cost(C, S.q.found[i]) <= C.targets[i]
Shrinks == \A i \in 1..(Len(S.q.found) - 1) : \A u \in Units(C) : S.q.found[i + 1][u] <= S.q.found[i][u]
\* every delivered subnet was still too large one step before
Tight == \A i \in 1..Len(S.q.found) :
           \/ S.q.found[i] = Full(C)
           \/ \E u \in Units(C) : S.q.found[i][u] < Len(C.w[u]) /\ Cost(C, [S.q.found[i] EXCEPT ![u] = @ + 1]) > C.targets[i]
=============================================================================
