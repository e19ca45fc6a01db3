----------------------------- MODULE ReframeTrace -----------------------------
EXTENDS Harness, Reframe
TInit == ReframeInit
TFails(s, r) == ReframeFails(s, r)
TAfter(s, r) == ReframeAfter(s, r)
Wide(f) == f[3] - f[1]
TTags(s, r) ==
  CASE r.e = "Reframe" ->
         {IF r.exact THEN "exact" ELSE "between_pixels"} \cup Tag("identity", r.old = r.new)
         \cup Tag("disjoint", Disjoint(r)) \cup Tag("zoom_in", Wide(r.new) < Wide(r.old)) \cup Tag("zoom_out", Wide(r.new) > Wide(r.old))
         \cup Tag("right", r.new[1] > r.old[1] /\ ~Disjoint(r)) \cup Tag("up", r.new[2] > r.old[2] /\ ~Disjoint(r))
         \cup Tag("down", r.new[2] < r.old[2] /\ ~Disjoint(r)) \cup Tag("oblong", r.h # r.w) \cup Tag("channels", r.ch > 1)
         \cup Tag("oblong_view", r.new[3] - r.new[1] # r.new[4] - r.new[2])
    [] r.e = "Stack" ->
         {"stack"} \cup Tag("stack_full", \A k \in DOMAIN s.hist : s.hist[k].id >= 0)
         \cup Tag("stack_blank", \E k \in DOMAIN s.hist : s.hist[k].id = -1)
         \cup Tag("stack_flat", \E k \in DOMAIN s.hist : s.hist[k].id = -2)
         \cup Tag("stack_zoom", \E k \in DOMAIN s.hist : s.hist[k].id >= 0 /\ Wide(s.hist[k].fov) # Wide(r.fov))
    [] r.e = "Begin" -> Tag("reset", r.again)
    [] OTHER -> {}
===============================================================================
