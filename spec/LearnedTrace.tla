----------------------------- MODULE LearnedTrace -----------------------------
EXTENDS Harness, Learned
TInit == LearnedInit
TFails(s, r) == LearnedFails(s, r)
TAfter(s, r) == LearnedAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Predict" -> {"predict"} \cup Tag("remembered", Key(s, r) \in DOMAIN s.memo) \cup Tag("reordered", r.lab # <<1, 2, 3>>)
         \cup Tag("fixed_inputs", s.pack[r.obj] # ENone) \cup Tag("explicit_inputs", r.explicit)
         \cup Tag("inputs_" \o ToString(Len(r.ctx)), TRUE)
         \cup Tag("moved_on", \E k \in DOMAIN s.memo : k[2] = r.probe /\ k[1] # s.v[r.obj])
    [] r.e = "Net" -> Tag("ensemble", r.models > 1) \cup Tag("single", r.models = 1)
    [] r.e = "Load" -> {IF r.raised THEN "nothing_saved" ELSE "loaded"}
         \cup Tag("older_step", ~r.raised /\ \E o \in DOMAIN s.disk : {o, r.dir} \in {{"0", "1"}, {"2", "3"}} /\ (IF r.dir \in DOMAIN s.disk THEN s.disk[o].v > s.disk[r.dir].v ELSE FALSE))
    [] r.e \in {"Train", "Distill"} -> {r.e} \cup Tag("changed_after_packaging", s.pack[r.obj] # ENone \/ \E k \in DOMAIN s.memo : k[1] = s.v[r.obj])
    [] r.e = "Save" -> Tag("overwritten", r.dir \in DOMAIN s.disk)
    [] r.e = "Export" -> {"exported"}
    [] OTHER -> {}
===============================================================================
