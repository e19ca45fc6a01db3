------------------------------- MODULE ReframeMC -------------------------------
(* An image of N by N pixels is enlarged or reduced (nearest), padded and cut, *)
(* for every shift and zoom; re-framed twice it shows nothing wrong.  The field *)
(* of view wanders, and the sequences of moves are printed for the driver.     *)
EXTENDS Reframe, Json
CONSTANTS N, MaxMoves, Far, Generate
VARIABLES fov, img, imgfov, n, h, fails, twice
vars == <<fov, img, imgfov, n, h, fails, twice>>
\* One pixel is 4 ticks at the usual zoom; the view is 4 N ticks wide.
Widths == {2 * N, 4 * N, 8 * N}
W(f) == f[3] - f[1]
Start == <<0, 0, 4 * N, 4 * N>>
Orig == [q \in 1..N |-> [c \in 1..N |-> 1 + (q - 1) * N + (c - 1)]]
Init == fov = Start /\ img = Orig /\ imgfov = Start /\ n = 0 /\ h = <<>> /\ fails = {} /\ twice = FALSE
\* Resize, pad, slice.
Side(of, nf) == (N * W(of)) \div W(nf)
At(im, of, nf, a, b) == LET m == Side(of, nf) IN    \* padded image, 0-based
  IF a \in N..(N + m - 1) /\ b \in N..(N + m - 1)
  THEN im[((2 * (a - N) + 1) * N) \div (2 * m) + 1][((2 * (b - N) + 1) * N) \div (2 * m) + 1] ELSE 0
Cut(im, of, nf) ==
  LET m == Side(of, nf)
      s1 == Clip((((of[4] - nf[4]) * N) \div W(nf)) + N, 0, m + N)
      s2 == Clip((((nf[1] - of[1]) * N) \div W(nf)) + N, 0, m + N)
  IN [q \in 1..N |-> [c \in 1..N |-> At(im, of, nf, s1 + q - 1, s2 + c - 1)]]
View(x, y, w) == <<x, y, x + w, y + w>>
Rec(nf, out) == [e |-> "Reframe", old |-> Start, new |-> nf, h |-> N, w |-> N, ch |-> 1, exact |-> TRUE, out |-> <<out>>,
                 shape |-> <<N, N, 1>>, kept |-> TRUE, raised |-> FALSE]
\* Moves by whole pixels of the new zoom.
Move(dx, dy, w) ==
  /\ n < MaxMoves /\ n' = n + 1 /\ w \in Widths
  /\ LET p == w \div N nf == View((fov[1] \div p) * p + dx * p, (fov[2] \div p) * p + dy * p, w) IN
     /\ fov' = nf
     /\ h' = Append(h, <<nf[1], nf[2], w>>)
     /\ IF Generate THEN UNCHANGED <<img, imgfov, fails, twice>>
        ELSE /\ fails' = ReframeFails1(Rec(nf, Cut(Orig, Start, nf)))
             /\ img' = Cut(img, imgfov, nf) /\ imgfov' = nf
             /\ twice' = (twice \/ w # 4 * N)
Steps == {-Far, -1, 0, 1, Far}
Next == \E w \in Widths : \E dx \in Steps : \E dy \in Steps : Move(dx, dy, w)
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
\* At one zoom, whatever is still shown after several moves is what one move shows.
Consistent == ~twice => LET one == Cut(Orig, Start, fov) IN
  \A q \in 1..N : \A c \in 1..N : img[q][c] \in {0, one[q][c]}
Gen == (Generate /\ n = MaxMoves) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
