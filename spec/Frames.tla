-------------------------------- MODULE Frames --------------------------------
(* Fields of view and coordinate frames.  A field of view is                  *)
(* <<x0, y0, x1, y1>> in 1e-4 A; microscope coordinates are in 1e-6.          *)
EXTENDS Fixed, FiniteSets

FC(name, ok) == IF ok THEN {} ELSE {name}
W(f) == f[3] - f[1]
H(f) == f[4] - f[2]
ToMat(f, u) == <<f[1] + Scale6(u[1], W(f)), f[2] + Scale6(u[2], H(f))>>
Corners(f, g, tol) == \A i \in 1..4 : Near(f[i], g[i], tol)

FramesInit == [fov |-> <<0, 0, 0, 0>>]

(* mic and mat: the same points in the two frames *)
SamePoints(f, mic, mat, tol) ==
  /\ Len(mic) = Len(mat)
  /\ \A i \in DOMAIN mic : NearSeq(ToMat(f, mic[i]), mat[i], tol)

FailsConv(f, r) ==
  FC("C09:not_raised", ~r.raised)
  \cup (IF r.raised THEN {} ELSE
  FC("C09:affine_map", IF r.dir = "mat" THEN SamePoints(f, r.in, r.out, 8)
                                        ELSE SamePoints(f, r.out, r.in, 8))
  \cup FC("C09:inverse", /\ Len(r.back) = Len(r.in)
                         /\ \A i \in DOMAIN r.in : NearSeq(r.back[i], r.in[i], 4))
  \cup FC("C09:rest_carried_over", r.carried)
  \cup FC("C09:shape_kept", r.shape)
  \cup FC("C09:input_unchanged", r.kept))

FailsOp(f, r) ==
  LET g == r.fov IN
  FC("C09:operation_leaves_original", Corners(r.old, f, 0))
  \cup (CASE r.op = "shift" ->
               FC("C09:shift_is_rigid", Corners(g, <<f[1] + r.d[1], f[2] + r.d[2],
                                                     f[3] + r.d[1], f[4] + r.d[2]>>, 2))
          [] r.op = "resize" ->
               FC("C09:resize_sides", Near(W(g), r.d[1], 2) /\ Near(H(g), r.d[2], 2))
               \cup FC("C09:resize_centre", /\ Near(g[1] + g[3], f[1] + f[3], 4)
                                            /\ Near(g[2] + g[4], f[2] + f[4], 4))
          [] r.op = "zoom" ->
               FC("C09:zoom_sides", /\ Near(W(g) * r.d[1], W(f) * 4, 2 * r.d[1] + 4)
                                    /\ Near(H(g) * r.d[1], H(f) * 4, 2 * r.d[1] + 4))
               \cup FC("C09:zoom_centre", /\ Near(g[1] + g[3], f[1] + f[3], 4)
                                          /\ Near(g[2] + g[4], f[2] + f[4], 4))
          [] OTHER -> {"C09:operation"})
  \cup FC("C09:width_height_centre", /\ Near(r.size[1], W(g), 2) /\ Near(r.size[2], H(g), 2)
                                     /\ Near(2 * r.mid[1], g[1] + g[3], 4)
                                     /\ Near(2 * r.mid[2], g[2] + g[4], 4))

InBounds(f, tol, p) == /\ f[1] - tol <= p[1] /\ p[1] <= f[3] + tol
                       /\ f[2] - tol <= p[2] /\ p[2] <= f[4] + tol
RECURSIVE Inside(_, _, _)
Inside(f, tol, atoms) ==
  IF atoms = <<>> THEN <<>>
  ELSE (IF InBounds(f, tol, Head(atoms).p) THEN <<Head(atoms)>> ELSE <<>>) \o Inside(f, tol, Tail(atoms))

FailsBounds(f, r) ==
  FC("C09:atoms_in_bounds", r.out = Inside(f, r.tol, r.atoms))
  \cup FC("C09:input_unchanged", r.kept)

FailsShift(f, r) ==
  FC("C09:shift_translates", /\ Len(r.out) = Len(r.in)
        /\ \A i \in DOMAIN r.in : NearSeq(r.out[i], <<r.in[i][1] + r.d[1], r.in[i][2] + r.d[2]>>, 2))
  \cup FC("C09:rest_carried_over", r.carried)
  \cup FC("C09:input_unchanged", r.kept)

FramesFails(st, r) ==
  CASE r.e = "Conv" -> FailsConv(st.fov, r)
    [] r.e = "Op" -> FailsOp(st.fov, r)
    [] r.e = "Bounds" -> FailsBounds(st.fov, r)
    [] r.e = "Shift" -> FailsShift(st.fov, r)
    [] OTHER -> {}
FramesAfter(st, r) ==
  CASE r.e = "New" -> [fov |-> r.fov]
    [] r.e = "Op" -> [fov |-> r.fov]
    [] OTHER -> st
=============================================================================
