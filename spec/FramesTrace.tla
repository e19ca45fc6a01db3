------------------------------ MODULE FramesTrace ------------------------------
EXTENDS Harness, Frames
TInit == FramesInit
TFails(s, r) == FramesFails(s, r)
TAfter(s, r) == FramesAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Conv" -> {r.kind \o "_" \o r.dir}
         \cup Tag("non_square", W(s.fov) # H(s.fov))
         \cup Tag("empty_grid", r.kind = "grid" /\ r.in = <<>>)
         \cup Tag("outside", r.dir = "mat" /\ \E i \in DOMAIN r.in : r.in[i][1] < 0)
    [] r.e = "Op" -> {r.op}
    [] r.e = "Bounds" -> {"bounds"} \cup Tag("bounds_negative", r.tol < 0)
         \cup Tag("bounds_positive", r.tol > 0)
         \cup Tag("bounds_edge", \E i \in DOMAIN r.atoms : r.atoms[i].p[1] \in {s.fov[1] - r.tol, s.fov[3] + r.tol}
                                    /\ InBounds(s.fov, r.tol, r.atoms[i].p))
         \cup Tag("bounds_some_outside", Len(r.out) < Len(r.atoms) /\ Len(r.out) > 1)
    [] r.e = "Shift" -> {"shift_" \o r.kind}
    [] OTHER -> {}
=============================================================================
