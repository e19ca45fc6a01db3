----------------------------- MODULE LearnerTrace -----------------------------
EXTENDS Harness, Learner
TInit == LearnerInit
TFails(s, r) == LearnerFails(s, r)
TAfter(s, r) == LearnerAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Script" -> {r.cfg.learner} \cup Tag("context_" \o ToString(Width(r.cfg)), TRUE) \cup Tag("bootstrapped", r.cfg.boot)
         \cup Tag("validated", ~r.cfg.boot /\ r.cfg.val > 0) \cup Tag("all_data", ~r.cfg.boot /\ r.cfg.val = 0)
         \cup Tag("small_data", r.cfg.bs > Len(r.points)) \cup Tag("augmented", r.cfg.augment) \cup Tag("unaugmented", ~r.cfg.augment)
         \cup Tag("run_again", r.dir \in DOMAIN s.disk) \cup Tag("quiet", ~r.cfg.log \/ ~r.cfg.vis) \cup Tag("repeated", r.twice)
         \cup Tag("pictured", Len(r.calls) > 0)
         \cup Tag("distilled", r.cfg.distill /\ IsNet(r.cfg)) \cup Tag("not_distilled", ~r.cfg.distill /\ IsNet(r.cfg)) \cup Tag("files", r.parts > 1) \cup Tag("one_file", r.parts = 1)
    [] r.e = "Drawings" -> {"drawings"} \cup Tag("drawn_label", r.label) \cup Tag("drawn_image", r.image) \cup Tag("left_out", r.left > 0)
         \cup Tag("drawn_move", \E i \in DOMAIN r.states : r.states[i] > 0) \cup Tag("drawn_stay", \E i \in DOMAIN r.states : r.states[i] = 0)
    [] r.e = "Model" -> {"model"} \cup Tag("settings", r.hyper # <<>>) \cup Tag("own_sample", r.i > 0 /\ s.disk[r.dir].cfg.boot)
    [] r.e = "Vote" -> {"vote"} \cup Tag("differing_states", ~r.raised /\ \E i, j \in DOMAIN r.classes : r.classes[i] # r.classes[j])
    [] r.e = "Reload" -> {"reload"}
    [] r.e = "Picture" -> {"picture"} \cup Tag("odd_number_of_points", ~r.raised /\ r.side * r.side # r.points) \cup Tag("fixed_context", r.fixed)
    [] OTHER -> {}
===============================================================================
