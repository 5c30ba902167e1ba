----------------------------- MODULE DeployTrace -----------------------------
(* Real quantized networks calibrated, trained, saved, loaded and deployed.   *)
(* Events: an operation of Deploy (op), followed by                           *)
(*   outs [outs]  what each holder computes of one probe: [h, id], equal ids: *)
(*     equal outputs; 0: not compared (a weight lay between two grid points) *)
(*   layers [h, ls]  of a deployed network: per quantized layer [k, grid, at, *)
(*     bias, norm]: grid: its weights are those of the source with the norm   *)
(*     merged, on the source's grid; at: its fake quantizer keeps them; bias; *)
(*     norm: 1 when a norm is left; acts: its activations are quantized by    *)
(*     the source's parameters                                                *)
(*   source [same]  deploying and saving left the source as it was            *)
EXTENDS TraceCheck, FiniteSets
D == INSTANCE Deploy WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == [q |-> D!Fresh, ids |-> <<>>]
\* ids: the output first seen of a version
IdOf(s, v) == IF v \in 1..Len(s.ids) THEN s.ids[v] ELSE 0
RECURSIVE Learn(_, _, _)
Learn(s, outs, i) ==
  IF i > Len(outs) THEN [st |-> s, bad |-> ""]
  ELSE LET v == D!Holds(s.q, outs[i].h)
           pad == [k \in 1..(IF v > Len(s.ids) THEN v ELSE Len(s.ids)) |-> IF k <= Len(s.ids) THEN s.ids[k] ELSE 0]
       IN  IF outs[i].id = 0 THEN Learn(s, outs, i + 1)
           ELSE IF IdOf(s, v) = 0 THEN Learn([s EXCEPT !.ids = [pad EXCEPT ![v] = outs[i].id]], outs, i + 1)
           ELSE IF IdOf(s, v) # outs[i].id
           THEN [st |-> s, bad |-> CASE outs[i].h = "live" -> "the network computes something else than before"
                                     [] outs[i].h = "load" -> "a loaded network computes something else than the saved one"
                                     [] OTHER -> "a deployed network computes something else than the one it was made from"]
           ELSE Learn(s, outs, i + 1)
LayersBad(e) ==
  CASE \E i \in 1..Len(e.ls) : e.ls[i].norm = 1 -> "a deployed layer keeps a norm it should have merged"
    [] \E i \in 1..Len(e.ls) : e.ls[i].grid = 0 -> "a deployed layer has other weights than the quantized ones"
    [] \E i \in 1..Len(e.ls) : e.ls[i].at = 0 -> "a deployed layer quantizes its weights by other parameters"
    [] \E i \in 1..Len(e.ls) : e.ls[i].bias = 0 -> "a deployed layer has another bias"
    [] e.acts = 0 -> "a deployed network quantizes activations by other parameters"
    [] OTHER -> ""
TStep(par, s, e) ==
  CASE e.op \in D!Ops -> IF D!Can(s.q, e.op) THEN [st |-> [s EXCEPT !.q = D!Do(@, e.op)], bad |-> ""]
                         ELSE [st |-> s, bad |-> "skip"]
    [] e.op = "outs" ->
         IF {e.outs[i].h : i \in 1..Len(e.outs)} # D!Holders(s.q) THEN [st |-> s, bad |-> "a network is missing"]
         ELSE Learn(s, e.outs, 1)
    [] e.op = "layers" -> [st |-> s, bad |-> LayersBad(e)]
    [] e.op = "source" -> [st |-> s, bad |-> IF e.same = 1 THEN "" ELSE "deploying changes the network deployed"]
    [] e.op = "text" -> [st |-> s, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
