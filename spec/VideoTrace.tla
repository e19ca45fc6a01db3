------------------------------ MODULE VideoTrace ------------------------------
EXTENDS Harness, Video
TInit == VideoInit
TFails(s, r) == VideoFails(s, r)
TAfter(s, r) == VideoAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Show" -> {"show_" \o r.via} \cup Tag("no_controls", s.frames = <<>>) \cup Tag("no_image", s.img = 0)
         \cup Tag("several_controls", Len(s.frames) > 2) \cup Tag("image_changes", \E k \in DOMAIN s.frames : s.frames[k].img # s.img)
         \cup Tag("view_changes", \E k \in DOMAIN s.frames : s.frames[k].fov # s.fov)
         \cup Tag("grid_changes", \E k \in DOMAIN s.frames : s.frames[k].grid # s.grid)
    [] r.e = "Clock" -> {"clock"} \cup Tag("carry", r.us >= 995000) \cup Tag("hours", r.s >= 6000)
    [] OTHER -> {}
===============================================================================
