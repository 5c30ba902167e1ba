------------------------------- MODULE NetGen -------------------------------
(* All small networks: every program of Depth steps over the operations of    *)
(* Net.tla, with what the specification promises about pruning any of them.   *)
EXTENDS Net
CONSTANTS Depth, NL, Cin, Widths, Ops
VARIABLES S, P

NewL == Cardinality(Used(S)) + 1
E(op, a, l, o, g) == [op |-> op, a |-> a, l |-> l, o |-> o, g |-> g]
Vs == 0..(Len(S.vars) - 1)
Cand ==
  {E("conv", <<x>>, NewL, o, 1) : x \in Vs, o \in Widths}
  \cup {E("conv", <<x>>, NewL, o, 2) : x \in Vs, o \in {w \in Widths : w % 2 = 0}}
  \cup {E("conv", <<x>>, NewL, Width(S, x), Width(S, x)) : x \in Vs}
  \cup {E("bn", <<x>>, NewL, Width(S, x), 1) : x \in Vs}
  \cup {E("gn", <<x>>, NewL, Width(S, x), 2) : x \in Vs}
  \cup {E("lin", <<x>>, NewL, o, 1) : x \in Vs, o \in Widths}
  \cup {E(S.lay[l].k, <<x>>, l, Len(S.lay[l].o), S.lay[l].g) : x \in Vs \ {0}, l \in Used(S)}
  \cup {E(op, <<x>>, 1, 0, 1) : op \in {"act", "gap"}, x \in Vs}
  \cup {E("flat", <<x>>, 1, 0, 4) : x \in Vs}
  \cup {E("half", <<x>>, 1, h, 1) : x \in Vs, h \in {1, 2}}
  \cup {E(op, <<x, y>>, 1, 0, 1) : op \in {"add", "cat"}, x \in Vs, y \in Vs}
Good(e) ==
  /\ e.op \in Ops
  /\ e.l <= NL
  /\ (e.op \in {"act", "gap", "flat", "half", "bn", "gn"} => e.a[1] # 0)
  /\ (e.op = "bn" => e.g = 1)
  /\ (e.op = "conv" /\ e.g > 1 => e.a[1] # 0)
  /\ Legal(S, e)

Init == S = Start(Cin, NL) /\ P = <<>>
Next == /\ Len(P) < Depth
        /\ \E e \in Cand : /\ Good(e) /\ S' = Apply(S, e) /\ P' = Append(P, e)
                           /\ (Len(P) + 1 = Depth => PrintT("PROG " \o ToJson([p |-> P'])))

F == Finish(S)
TypeOK == /\ Len(S.vars) = Len(P) + 1 /\ Len(S.map) = Len(S.vars)
          /\ \A t \in DOMAIN S.lab : S.lab[t] <= t /\ S.lab[S.lab[t]] = S.lab[t]
          /\ Len(S.frz) = Len(S.lab)
\* every class that may be pruned, removed alone or together with all others
\* that leave no layer empty, leaves a runnable network
Cuts == {{c} : c \in Prunable(F)} \cup {Prunable(F)}
Runnable == \A C \in Cuts : LET k == Kept(F, C) IN
              /\ Consistent(F, k)
              /\ \A i \in 1..Len(P) : StepFits(F, k, P[i])
\* outputs and inputs are whole
WholeEnds == \A C \in Cuts : LET k == Kept(F, C) IN
              /\ \A v \in Outputs(F) \cup {0} : KeptSeq(F, k, Tokens(F, v)) = Tokens(F, v)
\* pruning adds up: the kept widths of a concatenation are those of its parts
Additive == \A C \in Cuts : LET k == Kept(F, C) IN
              \A i \in 1..Len(P) : P[i].op = "cat" =>
                Len(KeptSeq(F, k, Tokens(F, i)))
                = Len(KeptSeq(F, k, Tokens(F, P[i].a[1]))) + Len(KeptSeq(F, k, Tokens(F, P[i].a[2])))
=============================================================================
