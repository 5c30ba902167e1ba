------------------------------ MODULE QuantTrace ------------------------------
(* Real quantized training, calibration and validation.  par: a configuration *)
(* of Quant.  Events:                                                         *)
(*   start [fresh]  the observers hold nothing (of an unresumed run)          *)
(*   train [b, obs, bn, fq, lrn, est, oth]  a training step on batch b; obs:  *)
(*     what it did to the ranges of the mode that ran, bn: to the statistics  *)
(*     of the fused norms, lrn: to the scales after the pass, est: whether    *)
(*     the scales were set from this batch.  Each "yes", "no", "any" (both    *)
(*     would look the same) or what is wrong.  fq: every value that is to be  *)
(*     quantized was, by the parameters in force; oth: the other modes        *)
(*     changed                                                                *)
(*   sync [same, tied]  after an epoch: the modes hold the same parameters;   *)
(*     all compute with the weights of the float network                      *)
(*   val [...], orig [...]  a batch of the quantized, of the float network;   *)
(*     orig: plain 1: it computed what the float network does, with the       *)
(*     weights and statistics trained                                         *)
(*   metrics [pre]  what is reported                                          *)
(*   cal [b, obs, fq, bn]   a calibration batch; save [same]: the checkpoint  *)
(*     written holds the calibrated parameters; end                           *)
EXTENDS TraceCheck, FiniteSets
Q == INSTANCE Quant WITH Configs <- <<>>, S <- 0, ev <- 0
TStart(par) == Q!Fresh(par)
Is(v, want) == v = "any" \/ v = (IF want THEN "yes" ELSE "no")
Odd(v) == v \notin {"yes", "no", "any"}
Wrong(pass, e, obs, bn) ==
  CASE Odd(e.obs) -> pass \o ": " \o e.obs
    [] ~Is(e.obs, obs) -> pass \o IF obs THEN " leaves no trace in the ranges" ELSE " is observed"
    [] Odd(e.bn) -> pass \o ": " \o e.bn
    [] ~Is(e.bn, bn) -> pass \o IF bn THEN " leaves no trace in the statistics of the norms" ELSE " changes the statistics of frozen norms"
    [] ~Is(e.fq, TRUE) -> pass \o " runs without simulated quantization"
    [] e.oth # 0 -> pass \o " changes the parameters of another mode"
    [] OTHER -> ""
TrainBad(par, q, e) ==
  LET n == Q!Batch(par, q) IN
  CASE q.pc # "train" -> "a training step while " \o q.pc \o " is due"
    [] e.b # n -> "a batch is left out, repeated or out of order"
    [] Wrong("training", e, Q!Collects(par, q.ep + 1, n), Q!Following(par, q.ep + 1)) # "" ->
         Wrong("training", e, Q!Collects(par, q.ep + 1, n), Q!Following(par, q.ep + 1))
    [] Odd(e.est) -> "estimating scales: " \o e.est
    [] par.kind = "lsq" /\ ~Is(e.est, Q!Estimating(par, n)) ->
         IF Q!Estimating(par, n) THEN "the first batch does not set the scales" ELSE "scales are set anew by a later batch"
    [] Odd(e.lrn) -> "learning scales: " \o e.lrn
    [] ~Is(e.lrn, Q!Learning(par, n)) -> IF Q!Learning(par, n) THEN "the scales do not learn" ELSE "scales learn out of their phase"
    [] OTHER -> ""
TStep(par, q, e) ==
  CASE e.op = "start" -> [st |-> q, bad |-> IF par.start = 0 /\ e.fresh = 0 THEN "ranges are held before anything is observed" ELSE ""]
    [] e.op = "train" -> LET b == TrainBad(par, q, e) IN [st |-> IF b = "" THEN Q!TrainStep(par, q) ELSE q, bad |-> b]
    [] e.op = "sync" ->
         [st |-> IF q.pc = "sync" THEN Q!SyncStep(par, q) ELSE q,
          bad |-> IF q.pc # "sync" THEN "an epoch ends while " \o q.pc \o " is due"
                  ELSE IF e.same = 0 THEN "the modes hold different parameters after an epoch"
                  ELSE IF e.tied = 0 THEN "a mode does not compute with the trained weights" ELSE ""]
    [] e.op = "val" ->
         LET b == IF q.pc # "val" THEN "a validation batch while " \o q.pc \o " is due"
                  ELSE IF e.b # q.it + 1 THEN "a validation batch is left out, repeated or out of order"
                  ELSE Wrong("validation", e, FALSE, FALSE)
         IN  [st |-> IF b = "" THEN Q!ValStep(par, q) ELSE q, bad |-> b]
    [] e.op = "orig" ->
         LET b == CASE q.pc # "orig" -> "the float network is validated while " \o q.pc \o " is due"
                    [] e.b # q.it - par.vn + 1 -> "a batch of the float network is left out, repeated or out of order"
                    [] e.plain = 0 -> "the float network does not compute with the trained weights, unquantized"
                    [] e.oth # 0 -> "validating the float network changes quantization parameters"
                    [] OTHER -> ""
         IN  [st |-> IF b = "" THEN Q!OrigStep(par, q) ELSE q, bad |-> b]
    [] e.op = "metrics" -> [st |-> q, bad |-> IF e.ok = 1 THEN "" ELSE "metrics of the quantized and of the float network are mixed up"]
    [] e.op = "cal" ->
         LET b == IF q.pc # "cal" THEN "a calibration batch while " \o q.pc \o " is due"
                  ELSE IF e.b # q.it + 1 THEN "a calibration batch is left out, repeated or out of order"
                  ELSE Wrong("calibration", e, TRUE, FALSE)
         IN  [st |-> IF b = "" THEN Q!CalStep(par, q) ELSE q, bad |-> b]
    [] e.op = "save" -> [st |-> IF q.pc = "save" THEN Q!SaveStep(par, q) ELSE q,
                         bad |-> IF q.pc # "save" THEN "saved while " \o q.pc \o " is due"
                                 ELSE IF e.same = 0 THEN "the calibrated checkpoint does not hold the calibrated parameters" ELSE ""]
    [] e.op = "end" -> [st |-> q, bad |-> IF q.pc # "end" THEN "the run ends while " \o q.pc \o " is due" ELSE ""]
    [] e.op = "text" -> [st |-> q, bad |-> IF e.ok = 1 THEN "" ELSE e.what]
=============================================================================
