----------------------------- MODULE Evolution -----------------------------
(* Evolution search over subnets, a subnet being a choice per group.          *)
(* Configuration: n (choices per group), cost, par (operations / parameters   *)
(* per group and choice), base, pbase (of the rest), lo, hi (allowed          *)
(* operations), size (of the pool), k (of the best list), nm, nc (most        *)
(* mutated / crossed candidates), pm, pc (how often a choice is taken from    *)
(* the other parent: 0 never, 1 always, 2 sometimes), epochs, keep (saved     *)
(* states kept, 0 = all), sc (scores per group and choice, for the model).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Configs
VARIABLES S, ev
Vars == S
Range(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})

RECURSIVE SumTo(_, _, _)
SumTo(tab, s, i) == IF i = 0 THEN 0 ELSE tab[i][s[i]] + SumTo(tab, s, i - 1)
Cost(c, s) == c.base + SumTo(c.cost, s, Len(s))
Params(c, s) == c.pbase + SumTo(c.par, s, Len(s))
Subnets(c) == {s \in [1..Len(c.n) -> 1..9] : \A g \in 1..Len(c.n) : s[g] <= c.n[g]}
Is(c, s) == Len(s) = Len(c.n) /\ \A g \in 1..Len(s) : s[g] \in 1..c.n[g]
Fits(c, s) == Is(c, s) /\ Cost(c, s) >= c.lo /\ Cost(c, s) <= c.hi
Mix(s, a, b, p) ==
  CASE p = 0 -> s = a [] p = 1 -> s = b
    [] OTHER -> \A g \in 1..Len(s) : s[g] \in {a[g], b[g]}
Mutated(c, s, best, drawn) == \E a \in best : \E b \in drawn : Mix(s, a, b, c.pm)
Crossed(c, s, best) == \E a, b \in best : Mix(s, a, b, c.pc)

\* scored lists: [s, x]; the k best of a list
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i].x >= q[i + 1].x
IsBest(top, all, k) ==
  /\ Len(top) = (IF Len(all) < k THEN Len(all) ELSE k)
  /\ Sorted(top)
  /\ \A y \in Range(top) : Count(top, y) <= Count(all, y)
  /\ \A y \in Range(all) : Count(top, y) < Count(all, y) => \A z \in Range(top) : z.x >= y.x
Files(e, keep) == {i \in 1..e : keep = 0 \/ i > e - keep}

\* ------------------------------------------------------- the search itself
Sc(c, s) == SumTo(c.sc, s, Len(s)) % 7
RECURSIVE Best(_, _)
Best(all, k) ==
  IF k = 0 \/ all = <<>> THEN <<>>
  ELSE LET i == CHOOSE i \in 1..Len(all) : \A j \in 1..Len(all) : all[i].x > all[j].x \/ (all[i].x = all[j].x /\ i <= j)
       IN  <<all[i]>> \o Best([j \in 1..(Len(all) - 1) |-> IF j < i THEN all[j] ELSE all[j + 1]], k - 1)
Seqs(A, n) == UNION {[1..m -> A] : m \in 0..n}
Init == /\ S \in {[c |-> i, e |-> 0, pool |-> <<>>, top |-> <<>>, hi |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Nxt ==
  LET c == Configs[S.c]
      A == {s \in {s \in [1..Len(c.n) -> 1..3] : \A g \in 1..Len(c.n) : s[g] <= c.n[g]} : Fits(c, s)}
  IN  /\ S.e < c.epochs
      /\ \E fill \in [1..(c.size - Len(S.pool)) -> A] :
         LET full == S.pool \o fill
             all == [i \in 1..Len(full) |-> [s |-> full[i], x |-> Sc(c, full[i])]] \o S.top
             top == Best(all, c.k)
             parents == {top[i].s : i \in 1..Len(top)}
         IN \E m \in Seqs({s \in A : Mutated(c, s, parents, A)}, c.nm) :
            \E x \in Seqs({s \in A : Crossed(c, s, parents)}, c.nc) :
               S' = [S EXCEPT !.e = @ + 1, !.pool = m \o x, !.top = top,
                              !.hi = IF top[1].x > @ THEN top[1].x ELSE @]
      /\ ev' = [op |-> "epoch"]
\* the best is never lost; what is kept is the best; everything is legal
Never == S.e > 0 => S.top[1].x = S.hi
Up == [][S.e > 0 => S'.top[1].x >= S.top[1].x]_S
AllFit == \A s \in Range(S.pool) \cup {S.top[i].s : i \in 1..Len(S.top)} : Fits(Configs[S.c], s)
Full == Len(S.pool) <= Configs[S.c].size /\ Sorted(S.top)
=============================================================================
