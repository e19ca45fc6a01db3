----------------------------- MODULE ImagingTrace -----------------------------
EXTENDS Harness, Imaging
TInit == ImagingInit
TFails(s, r) == ImagingFails(s, r)
TAfter(s, r) == ImagingAfter(s, r)
Inside(s, a) == Counted(a[2], s.fov[1], s.fov[3], 0) /\ Counted(a[3], s.fov[2], s.fov[4], 0)
View(s) == Tag("nothing_in_view", \A k \in DOMAIN s.atoms : ~Inside(s, s.atoms[k]))
           \cup Tag("out_of_view", \E k \in DOMAIN s.atoms : ~Inside(s, s.atoms[k]))
           \cup Tag("both_elements", Cardinality({s.atoms[k][1] : k \in DOMAIN s.atoms}) = 2)
TTags(s, r) ==
  CASE r.e = "Mask" -> {"mask"} \cup View(s) \cup Tag("oblong_mask", r.size[1] # r.size[2]) \cup Tag("mask_of_oblong_view", s.fov[3] # s.fov[4])
    [] r.e = "Clean" -> {"clean"} \cup View(s) \cup Tag("oblong_view", s.fov[3] # s.fov[4]) \cup Tag("border", r.buf > 0)
         \cup Tag("uneven_border", (r.buf * r.size) % 100 # 0)
         \cup Tag("seen_from_border", \E k \in DOMAIN s.atoms : ~Inside(s, s.atoms[k]) /\ Counted(s.atoms[k][2], s.fov[1], s.fov[3], r.buf) /\ Counted(s.atoms[k][3], s.fov[2], s.fov[4], r.buf))
    [] r.e = "Noisy" -> {"noisy"} \cup Tag("noise_of_nothing", \A k \in DOMAIN s.atoms : ~Inside(s, s.atoms[k]))
    [] r.e = "Step" -> {"step_" \o r.how} \cup Tag("changed", r.img # r.out) \cup Tag("blank", Top(r.img) = 0)
    [] OTHER -> {r.e}
===============================================================================
