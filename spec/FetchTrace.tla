------------------------------ MODULE FetchTrace ------------------------------
EXTENDS Harness, Fetch
TInit == FetchInit
TFails(s, r) == FetchFails(s, r)
TAfter(s, r) == FetchAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Call" -> {r.kind, r.out, r.src, r.fault} \cup Tag("on_disk", s.vis > 0) \cup Tag("replaced", s.vis > 0 /\ r.after > 0 /\ r.after # s.vis)
                       \cup Tag("reload", r.reload) \cup Tag("broken_on_disk", r.src # "good" /\ ~Needed(s, r))
                       \cup Tag("broken_reload", r.src # "good" /\ s.vis > 0 /\ r.reload) \cup Tag("after_litter", s.left > 0)
                       \cup Tag("killed_reload", r.out = "killed" /\ r.reload /\ s.vis > 0)
    [] r.e = "Pause" -> {"pause"}
    [] r.e = "Resume" -> {"resume_" \o r.out} \cup Tag("overtaken", s.vis = r.ver)
    [] OTHER -> {r.e}
===============================================================================
