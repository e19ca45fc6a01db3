-------------------------------- MODULE Reframe --------------------------------
(* Re-framing images.  A field of view is <<x0, y0, x1, y1>> in ticks.  Pixel  *)
(* (row, column) of channel k of an image of w columns is worth                *)
(* 1 + row * w + column + 1000 * k, so that values tell where they come from.  *)
(*   Reframe  old, new, h, w, ch, exact -> out[k][row][column], shape, kept    *)
(*   Begin    keep (the aligner's history length), again (is it a reset)       *)
(*   Stack    id, fov -> stack[channel][row][column]: what the aligner shows   *)
(*            its model; drift, told: the drift reported and the model's last  *)
EXTENDS Fixed, FiniteSets, TLC

RC(name, ok) == IF ok THEN {} ELSE {name}
ReframeInit == [keep |-> 0, hist |-> <<>>]

\* Where a point of output column c (num/den of its width from its left) lies in
\* the old image, in columns: a fraction.
ColNum(r, c, num, den) == (((r.new[1] - r.old[1]) * r.w) * den) + ((c * den + num) * (r.new[3] - r.new[1]))
RowNum(r, q, num, den) == (((r.old[4] - r.new[4]) * r.h) * den) + ((q * den + num) * (r.new[4] - r.new[2]))
ColDen(r, den) == den * (r.old[3] - r.old[1])
RowDen(r, den) == den * (r.old[4] - r.old[2])
ColOf(r, c, num, den) == ColNum(r, c, num, den) \div ColDen(r, den)
RowOf(r, q, num, den) == RowNum(r, q, num, den) \div RowDen(r, den)
Ceil(a, b) == (a + b - 1) \div b
SlackC(r) == IF r.exact THEN 0 ELSE 1 + Ceil(r.new[3] - r.new[1], r.old[3] - r.old[1])
SlackR(r) == IF r.exact THEN 0 ELSE 1 + Ceil(r.new[4] - r.new[2], r.old[4] - r.old[2])
Worth(r, k, q, c) == IF q \in 0..(r.h - 1) /\ c \in 0..(r.w - 1) THEN 1 + q * r.w + c + 1000 * k ELSE 0
\* The values that output pixel (q, c) may have.
Allowed(r, k, q, c) == {Worth(r, k, RowOf(r, q, 1, 2) + a, ColOf(r, c, 1, 2) + b) : a \in -SlackR(r)..SlackR(r), b \in -SlackC(r)..SlackC(r)}
Disjoint(r) == \/ r.new[1] >= r.old[3] \/ r.old[1] >= r.new[3] \/ r.new[2] >= r.old[4] \/ r.old[2] >= r.new[4]

ReframeFails1(r) ==
  IF r.raised THEN {"C22:raises"}
  ELSE RC("C22:inputs_unmodified", r.kept)
       \cup (IF r.shape # <<r.h, r.w, r.ch>> THEN {"C22:shape"}
             ELSE RC("C22:pixels_move_with_the_scene",
                     \A k \in 1..r.ch : \A q \in 1..r.h : \A c \in 1..r.w :
                       r.out[k][q][c] \in Allowed(r, k - 1, q - 1, c - 1))
                  \cup RC("C22:disjoint_is_blank",
                          (Disjoint(r) /\ r.exact) => \A k \in 1..r.ch : \A q \in 1..r.h : \A c \in 1..r.w : r.out[k][q][c] = 0))

\* An image without any contrast (id -2) is blank to the model, as is one that isn't
\* there yet (id -1).
\* The aligner's images: Size blocks across; block (q, c) of image id is worth
\* (Size * q + c + 37 * id) mod Size^2; looked at a quarter into each block.
Size == 16
Block(id, q, c) == (Size * q + c + 37 * id) % (Size * Size)
Shown(e, fov, q, c) ==
  IF e.id < 0 THEN 0
  ELSE LET r == [old |-> e.fov, new |-> fov, h |-> Size, w |-> Size]
           a == RowOf(r, q, 1, 4) b == ColOf(r, c, 1, 4)
       IN IF a \in 0..(Size - 1) /\ b \in 0..(Size - 1) THEN Block(e.id, a, b) ELSE 0
Blank == [id |-> -1, fov |-> <<0, 0, 1, 1>>]
Blanks(n) == [k \in 1..n |-> Blank]
StackFails(st, r) ==
  LET es == Append(st.hist, [id |-> r.id, fov |-> r.fov]) IN
  IF r.raised THEN {"C22:raises"}
  ELSE IF Len(r.stack) # st.keep THEN {"C22:history_length"}
  ELSE RC("C22:history_in_current_view", \A k \in DOMAIN es : \A q \in 1..Size : \A c \in 1..Size :
            r.stack[k][q][c] = Shown(es[k], r.fov, q - 1, c - 1))
       \cup RC("C22:drift_of_latest", r.drift = r.told)
       \cup RC("C22:inputs_unmodified", r.kept)

ReframeFails(st, r) == CASE r.e = "Reframe" -> ReframeFails1(r)
                         [] r.e = "Stack" -> StackFails(st, r) [] OTHER -> {}
ReframeAfter(st, r) ==
  CASE r.e = "Begin" -> [keep |-> r.keep, hist |-> Blanks(r.keep - 1)]
    [] r.e = "Stack" -> [st EXCEPT !.hist = IF st.keep < 2 THEN @ ELSE Tail(Append(@, [id |-> r.id, fov |-> r.fov]))]
    [] OTHER -> st
===============================================================================
