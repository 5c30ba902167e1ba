-------------------------------- MODULE Deploy --------------------------------
(* Which quantized network holds which parameters.                            *)
(* State q: live (version of the network being calibrated and trained), last  *)
(*   version made, file (version saved, 0: none), deps the versions of the    *)
(*   networks deployed, load (version of a network loaded into, 0: none),     *)
(*   ready: ranges are known.                                                 *)
(* A configuration c: max (operations).                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Configs
VARIABLES S, ev
Vars == S
Fresh == [live |-> 1, last |-> 1, file |-> 0, deps |-> <<>>, load |-> 0, ready |-> FALSE, fready |-> FALSE]
Changes == {"cal", "train"}
Can(q, op) ==
  CASE op = "cal" -> TRUE
    [] op = "train" -> q.ready
    [] op = "save" -> q.ready
    [] op = "load" -> q.file # 0
    [] op = "deploy" -> q.ready
    [] op = "adopt" -> q.load # 0
Do(q, op) ==
  CASE op \in Changes -> [q EXCEPT !.live = q.last + 1, !.last = @ + 1, !.ready = TRUE,
                                   \* a deployed network may share parameters with one that trains on
                                   !.deps = IF op = "train" THEN <<>> ELSE @]
    [] op = "save" -> [q EXCEPT !.file = q.live, !.fready = q.ready]
    [] op = "load" -> [q EXCEPT !.load = q.file]
    [] op = "deploy" -> [q EXCEPT !.deps = Append(@, q.live)]
    [] op = "adopt" -> [q EXCEPT !.live = q.load, !.load = 0, !.ready = TRUE]   \* go on with the loaded network
\* the holders there are and the version each holds
Holders(q) == {"live"} \cup (IF q.load # 0 THEN {"load"} ELSE {}) \cup {ToString(i) : i \in 1..Len(q.deps)}
Holds(q, h) == IF h = "live" THEN q.live ELSE IF h = "load" THEN q.load
               ELSE q.deps[CHOOSE i \in 1..Len(q.deps) : ToString(i) = h]
Ops == {"cal", "train", "save", "load", "deploy", "adopt"}

C == Configs[S.c]
Init == /\ S \in {[c |-> i, q |-> Fresh, n |-> 0] : i \in 1..Len(Configs)}
        /\ ev = [op |-> "init"]
Nxt == \E op \in Ops : /\ S.n < C.max /\ Can(S.q, op)
                       /\ S' = [S EXCEPT !.q = Do(@, op), !.n = @ + 1]
                       /\ ev' = [op |-> op]
\* what was deployed or saved never changes; only training and calibrating make new versions
DeployedStays == [][ev'.op # "train" => \A i \in 1..Len(S.q.deps) : S'.q.deps[i] = S.q.deps[i]]_Vars
LiveOnlyLearns == [][S'.q.live # S.q.live => ev'.op \in Changes \cup {"adopt"}]_Vars
Known == /\ \A i \in 1..Len(S.q.deps) : S.q.deps[i] \in 2..S.q.last
         /\ S.q.file \in {0} \cup 2..S.q.last
         /\ S.q.load \in {0} \cup 2..S.q.last
SameVersion == \A h \in Holders(S.q) : Holds(S.q, h) \in 1..S.q.last
=============================================================================
