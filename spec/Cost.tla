-------------------------------- MODULE Cost --------------------------------
(* What a network costs.  A network w: cin, nd (spatial dimensions),          *)
(*   lay   layers [k, i, o, ker, st, pad, dil, g, b, blk]: kind, widths,      *)
(*         kernel, stride, padding, dilation per dimension, groups,           *)
(*         bias / affine / weights, enclosing block (0: the network itself)   *)
(*   up    the enclosing block of every block                                 *)
(*   steps [op, l, a] with op "lay" (apply layer l to variable a[1]), "add",  *)
(*         "cat" or "flat"; variable 1 is the input                           *)
(* Operations are counted per use and per sample, parameters per use.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Pools == {"max", "avg", "amax", "aavg"}
Acts == {"relu", "prelu", "elu", "lrelu", "relu6"}
Norms == {"bn", "gn", "in"}
\* the shape [c, s] a layer gives
Out(L, x) ==
  CASE L.k \in {"conv", "max", "avg"} ->
         [c |-> IF L.k = "conv" THEN L.o ELSE x.c,
          s |-> [d \in 1..Len(x.s) |-> ((x.s[d] + 2 * L.pad[d] - L.dil[d] * (L.ker[d] - 1) - 1) \div L.st[d]) + 1]]
    [] L.k = "deconv" -> [c |-> L.o, s |-> [d \in 1..Len(x.s) |-> (x.s[d] - 1) * L.st[d] - 2 * L.pad[d] + (L.ker[d] - 1) + 1]]
    [] L.k \in {"amax", "aavg"} -> [c |-> x.c, s |-> L.ker]
    [] L.k = "up" -> [c |-> x.c, s |-> [d \in 1..Len(x.s) |-> x.s[d] * L.st[d]]]
    [] L.k = "lin" -> [c |-> L.o, s |-> <<>>]
    [] OTHER -> x
Size(x) == x.c * Prod(x.s)
\* parameters of a layer, operations of one application to x
Par(L) ==
  CASE L.k \in {"conv", "deconv"} -> (L.i \div L.g) * L.o * Prod(L.ker) + L.b * L.o
    [] L.k = "lin" -> L.i * L.o + L.b * L.o
    [] L.k \in Norms -> 2 * L.b * L.i
    [] L.k = "prelu" -> L.o
    [] OTHER -> 0
Ops(L, x) ==
  LET y == Out(L, x) IN
  CASE L.k = "conv" -> Prod(y.s) * ((L.i \div L.g) * L.o * Prod(L.ker) + L.b * L.o)
    [] L.k = "deconv" -> Prod(x.s) * (L.i * (L.o \div L.g) * Prod(L.ker)) + Prod(y.s) * L.b * L.o
    [] L.k = "lin" -> L.i * L.o
    [] L.k \in Norms -> (1 + L.b) * Size(x)
    [] L.k \in Pools -> Size(x)
    [] OTHER -> Size(y)
RECURSIVE Shapes(_, _, _)
Shapes(w, vs, n) ==
  IF n > Len(w.steps) THEN vs
  ELSE LET e == w.steps[n]
           x == vs[e.a[1]]
           y == CASE e.op = "lay" -> Out(w.lay[e.l], x)
                  [] e.op = "cat" -> [c |-> SumSeq([j \in 1..Len(e.a) |-> vs[e.a[j]].c]), s |-> x.s]
                  [] e.op = "flat" -> [c |-> Size(x), s |-> <<>>]
                  [] OTHER -> x
       IN  Shapes(w, Append(vs, y), n + 1)
\* the costs of the steps for an input of spatial size sp
StepCosts(w, sp) ==
  LET vs == Shapes(w, <<[c |-> w.cin, s |-> sp]>>, 1)
  IN  [n \in 1..Len(w.steps) |->
        LET e == w.steps[n] IN
        IF e.op # "lay" THEN [l |-> 0, f |-> 0, p |-> 0]
        ELSE [l |-> e.l, f |-> Ops(w.lay[e.l], vs[e.a[1]]), p |-> Par(w.lay[e.l])]]
RECURSIVE Inside(_, _, _)
Inside(w, b, x) == b = x \/ (b # 0 /\ Inside(w, w.up[b], x))
\* the costs over the layers of part x (a block [b, 0] or a layer [0, l])
\* of the kinds that are not switched off
In(w, l, x) == IF x.l # 0 THEN l = x.l ELSE Inside(w, w.lay[l].blk, x.b)
Whole == [b |-> 0, l |-> 0]
Costs(w, sp, x, off) ==
  LET cs == StepCosts(w, sp)
      mine == [n \in 1..Len(cs) |-> cs[n].l # 0 /\ In(w, cs[n].l, x) /\ w.lay[cs[n].l].k \notin off]
  IN  [f |-> SumSeq([n \in 1..Len(cs) |-> IF mine[n] THEN cs[n].f ELSE 0]),
       p |-> SumSeq([n \in 1..Len(cs) |-> IF mine[n] THEN cs[n].p ELSE 0])]

\* --------------------------------------------------------- the settings
\* what is given at construction, in the estimator's counting settings and
\* in a call; <<>> is not given, the later ones win
Given(field, call, set, cons, default) ==
  IF call[field] # <<>> THEN call[field][1]
  ELSE IF set[field] # <<>> THEN set[field][1]
  ELSE IF cons[field] # <<>> THEN cons[field][1] ELSE default
Scale(u) == CASE u = "K" -> 1000 [] u = "M" -> 1000000 [] u = "G" -> 1000000000 [] OTHER -> 1
\* r is v in units u with three decimals (r thousandths), of k summands
Reads(r, v, u, k) ==
  IF u = "none" THEN r = v
  ELSE LET t == Scale(u) \div 1000
           d == IF t = 1 THEN r - v ELSE r * t - v
       IN  d <= (t \div 2) * k /\ -d <= (t \div 2) * k

\* ------------------------------------------------------------- the machine
C == Configs[S.c]
Init == /\ S \in {[c |-> i, off |-> {}, sp |-> 1, n |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Kinds(w) == {w.lay[l].k : l \in 1..Len(w.lay)}
Nxt == /\ S.n < 1
       /\ \E off \in SUBSET Kinds(C.w) : \E sp \in 1..Len(C.sps) : S' = [S EXCEPT !.off = off, !.sp = sp, !.n = 1]
       /\ ev' = [op |-> "estimate"]
Tot(x, off) == Costs(C.w, C.sps[S.sp], x, off)
\* the whole is the sum of its parts
Additive ==
  LET ch == {b \in 1..Len(C.w.up) : C.w.up[b] = 0}
      own == {l \in 1..Len(C.w.lay) : C.w.lay[l].blk = 0}
      parts == [j \in 1..(Len(C.w.up) + Len(C.w.lay)) |->
                 IF j <= Len(C.w.up)
                 THEN (IF j \in ch THEN Tot([b |-> j, l |-> 0], S.off) ELSE [f |-> 0, p |-> 0])
                 ELSE (IF j - Len(C.w.up) \in own THEN Tot([b |-> 0, l |-> j - Len(C.w.up)], S.off) ELSE [f |-> 0, p |-> 0])]
  IN  /\ SumSeq([j \in 1..Len(parts) |-> parts[j].f]) = Tot(Whole, S.off).f
      /\ SumSeq([j \in 1..Len(parts) |-> parts[j].p]) = Tot(Whole, S.off).p
Split == LET off == Kinds(C.w) \ S.off
         IN  Tot(Whole, S.off).f + Tot(Whole, off).f = Tot(Whole, {}).f
\* using a layer once more costs exactly its application
Again == \A n \in 1..Len(C.w.steps) : LET e == C.w.steps[n] IN
           (e.op = "lay" /\ C.w.lay[e.l].k \notin S.off) =>
             LET w2 == [C.w EXCEPT !.steps = Append(@, e)]
                 vs == Shapes(C.w, <<[c |-> C.w.cin, s |-> C.sps[S.sp]]>>, 1)
             IN  Costs(w2, C.sps[S.sp], Whole, S.off).f = Tot(Whole, S.off).f + Ops(C.w.lay[e.l], vs[e.a[1]])
Positive == \A n \in 1..Len(C.w.steps) : StepCosts(C.w, C.sps[S.sp])[n].f >= 0
=============================================================================
