----------------------------- MODULE TrainingTrace -----------------------------
EXTENDS Harness, Training
TInit == TrainingInit
TFails(s, r) == TrainingFails(s, r)
TAfter(s, r) == TrainingAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Loss" -> {"loss"} \cup Tag("column", r.column) \cup Tag("weighted", r.cw # 10 \/ r.rw # 10) \cup Tag("states_" \o ToString(Len(r.th) - 1), TRUE)
         \cup Tag("one_example", Len(r.rows) = 1) \cup Tag("no_transition", \E i \in DOMAIN r.rows : r.rows[i].s = 0)
         \cup Tag("no_time", \E i \in DOMAIN r.rows : r.rows[i].s = 0 /\ r.rows[i].t = 0)
         \cup Tag("impossible", \E i \in DOMAIN r.rows : r.rows[i].s # 0 /\ r.rows[i].t = 0)
    [] r.e = "Fit" -> Tag("epoch", ~r.model) \cup Tag("model", r.model /\ r.init = 0) \cup Tag("models", r.init # 0)
         \cup Tag("column_fit", r.column) \cup Tag("small_data", Len(r.rows) < r.bs) \cup Tag("left_over", Len(r.rows) > r.bs /\ (Len(r.rows) % r.bs) # 0)
         \cup Tag("several_batches", Len(r.rows) >= 2 * r.bs) \cup Tag("several_epochs", r.epochs > 1)
         \cup Tag("parameters_moved", \E k \in DOMAIN r.moves : \E j \in DOMAIN r.moves[k] : r.moves[k][j] # 0)
    [] r.e = "Distill" -> {"distill_" \o r.kind} \cup Tag("ensemble", Len(r.teach) > 1) \cup Tag("alone", Len(r.teach) = 1)
         \cup Tag("same_as_teacher", ~r.raised /\ \E e \in DOMAIN r.loss : r.loss[e] = 0)
         \cup Tag("flat_direction", \E c \in DOMAIN r.scale : r.scale[c] = 0)
    [] r.e = "Eval" -> {"eval"} \cup Tag("dropout", r.dropout) \cup Tag("batchnorm", r.batchnorm)
    [] r.e = "Learn" -> {"learn"}
    [] r.e = "End" -> Tag("pooled", s.z.n > 100)
    [] OTHER -> {}
===============================================================================
