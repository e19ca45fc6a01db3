------------------------------- MODULE SimTrace -------------------------------
EXTENDS Harness, Sim
TInit == SimInit
TFails(s, r) == SimFails(s, r)
TAfter(s, r) == SimAfter(s, r)
TTags(s, r) ==
  CASE r.e = "OTRANS" -> {"transition"} \cup Tag("multi_transition", s.lastt > 0)
    [] r.e = "End" ->
         Tag("reset", s.call.k = "reset")
         \cup Tag("fov_moved", Moved(s, r))
         \cup Tag("fov_kept", s.call.k = "step" /\ ~Moved(s, r))
         \cup Tag("image", r.hasimg)
         \cup Tag("image_and_fov_moved", r.hasimg /\ Moved(s, r))
         \cup Tag("no_control", s.call.k = "step" /\ s.call.ctrls = <<>>)
         \cup Tag("many_controls", Len(s.call.ctrls) > 1)
         \cup Tag("silicon_left_view", s.call.k = "step" /\ r.si \in DOMAIN s.sites
                                         /\ ~InFov(s.sites[r.si], s.fov, 0))
         \cup Tag("observer_added", \E i \in DOMAIN r.seen : r.seen[i].reg)
         \cup Tag("observer_removed", \E i \in DOMAIN r.seen : ~r.seen[i].reg)
         \cup Tag("second_reset", s.call.k = "reset" /\ s.ready)
         \cup Tag("beam_params", \E i \in DOMAIN s.call.ctrls : s.call.ctrls[i].kv # 60000)
    [] OTHER -> {}
=============================================================================
