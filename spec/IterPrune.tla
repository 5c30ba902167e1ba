----------------------------- MODULE IterPrune -----------------------------
(* Iterative pruning.  A configuration: kind "ite" / "dcff", freq, times,     *)
(* linear, ipe (iterations per epoch), epochs, mode "number" / "ratio", d,    *)
(* mn, rt (width rules), units [n, s, k, v, q]: channels, width at the start  *)
(* of training, target: "none", a count v, or a ratio v/q.                    *)
EXTENDS Widths, Sequences, TLC, Json
CONSTANT Configs
VARIABLES S, ev
Vars == S

Max(c) == c.ipe * c.epochs
Freq0(c) == IF c.epochs # 1 THEN c.freq * c.ipe ELSE c.freq
FreqLegal(c) == Freq0(c) > 0 /\ Freq0(c) < Max(c)
TimesLegal(c) == c.times > 0 /\ c.times < Max(c)
LegalCfg(c) == c.kind = "dcff" => FreqLegal(c) # TimesLegal(c)
Freq(c) == IF c.kind = "ite" \/ FreqLegal(c) THEN Freq0(c) ELSE Max(c) \div c.times
Times(c) == IF c.kind = "ite" \/ ~FreqLegal(c) THEN c.times ELSE Max(c) \div Freq0(c)
Scheduled(c, it) == it % Freq(c) = 0 /\ it \div Freq(c) < Times(c)
Step(c, it) == it \div Freq(c) + 1

\* what unit u is asked for at the k-th of T times: on the straight line from
\* its width at the start to its target
Goal(u) == IF u.k = "num" THEN u.v ELSE MaxW(1, (u.n * u.v) \div u.q)
Line(c, u, k, T) ==
  IF c.mode = "number"
  THEN (u.s * T - (u.s - Goal(u)) * k) \div T
  ELSE LET v == u.v q == IF u.k = "num" THEN u.n ELSE u.q
       IN  MaxW(1, (u.s * q * T + (u.n * v - u.s * q) * k) \div (q * T))
Want(c, u, k, T) ==
  LET r == IF c.linear = 1 THEN Line(c, u, k, T) ELSE Goal(u)
  IN  MinW(u.n, MakeDiv(r, c.d, c.mn, c.rt))
AtStep(c, w, k) == [j \in 1..Len(w) |-> IF c.units[j].k = "none" THEN w[j] ELSE Want(c, c.units[j], k, Times(c))]
\* widths after a training forward at iteration it
Trained(c, w, it) == IF Scheduled(c, it) THEN AtStep(c, w, Step(c, it)) ELSE w
Target(c, w) == [j \in 1..Len(w) |-> IF c.units[j].k = "none" THEN w[j]
                                     ELSE MinW(c.units[j].n, MakeDiv(Goal(c.units[j]), c.d, c.mn, c.rt))]

Start(c) == [j \in 1..Len(c.units) |-> c.units[j].s]
Init == /\ S \in {[c |-> i, it |-> 0, t |-> 0, w |-> Start(Configs[i])] : i \in {i \in 1..Len(Configs) : LegalCfg(Configs[i])}}
        /\ ev = [op |-> "init"]
C == Configs[S.c]
Train == /\ S' = [S EXCEPT !.w = Trained(C, S.w, S.it), !.t = 1]
         /\ \E m \in {"loss", "tensor"} : ev' = [op |-> "train", mode |-> m]
Eval == /\ S' = S
        /\ \E m \in {"predict", "tensor", "loss"} : ev' = [op |-> "eval", mode |-> m]
Tick == /\ S.t = 1 /\ S.it + 1 < Max(C)
        /\ S' = [S EXCEPT !.it = @ + 1, !.t = 0]
        /\ ev' = [op |-> "tick", it |-> S.it + 1]
Nxt == Train \/ Eval \/ Tick
Emit == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), s |-> Vars, e |-> ev', t |-> Vars']))

\* ------------------------------------------------------------- the property
Between(a, x, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
Inside == \A j \in 1..Len(S.w) : S.w[j] \in 1..C.units[j].n
\* never past the target, never back (towards where it started)
Leg(u) == MinW(u.n, MakeDiv(u.s, C.d, C.mn, C.rt)) = u.s
NeverPast == \A j \in 1..Len(S.w) :
  Leg(C.units[j]) => Between(C.units[j].s, S.w[j], Target(C, Start(C))[j])
NeverBack == [][\A j \in 1..Len(S.w) : Leg(C.units[j]) => Between(S.w[j], S'.w[j], Target(C, Start(C))[j])]_S
OnlyScheduled == [][S'.w # S.w => Scheduled(C, S.it)]_S
AtTheEnd == (S.t = 1 /\ S.it >= Freq(C) * (Times(C) - 1)) => S.w = Target(C, S.w)
=============================================================================
