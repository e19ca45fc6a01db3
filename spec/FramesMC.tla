------------------------------- MODULE FramesMC -------------------------------
(* A field of view is shifted, zoomed and resized step by step while one      *)
(* material point is followed.  TLC checks the algebra of the frames on it    *)
(* and prints the histories of operations that the driver replays.            *)
EXTENDS Frames, TLC, Json
CONSTANTS Depth, Starts, Generate
VARIABLES fov, pt, mic, hist, st, fails
vars == <<fov, pt, mic, hist, st, fails>>

\* Exact: the points used are multiples of a quarter of the sides.
Mic(f, p) == <<Ratio6(p[1] - f[1], W(f)), Ratio6(p[2] - f[2], H(f))>>
Init == /\ fov \in Starts /\ pt \in {<<fov[1], fov[2]>>, <<(fov[1] + fov[3]) \div 2, fov[4]>>}
        /\ mic = Mic(fov, pt) /\ hist = <<>> /\ st = [fov |-> fov] /\ fails = {}

Size(g) == <<W(g), H(g)>>
Mid(g) == <<(g[1] + g[3]) \div 2, (g[2] + g[4]) \div 2>>
Around(g, w, h) == LET m == Mid(g) IN <<m[1] - w \div 2, m[2] - h \div 2, m[1] + w \div 2, m[2] + h \div 2>>

Do(op, d, g, h) ==
  /\ Len(hist) < Depth /\ W(g) >= 40000 /\ W(g) <= 1600000 /\ H(g) >= 40000 /\ H(g) <= 1600000
  /\ LET r == [e |-> "Op", op |-> op, d |-> d, old |-> fov, fov |-> g, size |-> Size(g), mid |-> Mid(g)]
         m == Mic(g, pt)
         conv == [e |-> "Conv", kind |-> "point", dir |-> "mic", in |-> <<pt>>, out |-> <<m>>,
                  back |-> <<ToMat(g, m)>>, carried |-> TRUE, shape |-> TRUE, kept |-> TRUE, raised |-> FALSE]
         s1 == FramesAfter(st, r)
     IN fails' = FramesFails(st, r) \cup FramesFails(s1, conv) /\ st' = s1 /\ mic' = m
  /\ fov' = g /\ hist' = Append(hist, h) /\ UNCHANGED pt

Shift(dx, dy) == Do("shift", <<dx, dy>>, <<fov[1] + dx, fov[2] + dy, fov[3] + dx, fov[4] + dy>>, "S")
ZoomIn == Do("zoom", <<8, 0>>, Around(fov, W(fov) \div 2, H(fov) \div 2), "I")
ZoomOut == Do("zoom", <<2, 0>>, Around(fov, W(fov) * 2, H(fov) * 2), "O")
Resize(w, h) == Do("resize", <<w, h>>, Around(fov, w, h), "Z")

Next == \/ Shift(160000, -80000) \/ Shift(-240000, 40000)
        \/ ZoomIn \/ ZoomOut
        \/ Resize(320000, 160000) \/ Resize(80000, 640000)
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
\* Shifting moves every point by the same part of a side, zooming keeps the
\* direction from the centre and scales it.
CentreIsHalf == NearSeq(Mic(fov, Mid(fov)), <<500000, 500000>>, 2)
CornersAreUnit == Mic(fov, <<fov[1], fov[2]>>) = <<0, 0>> /\ NearSeq(Mic(fov, <<fov[3], fov[4]>>), <<1000000, 1000000>>, 2)
Inverse == (\A i \in 1..2 : Abs(mic[i]) <= 5000000) => NearSeq(ToMat(fov, mic), pt, 8)
ZoomScales == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')] = "I"
                  /\ \A i \in 1..2 : Abs(mic[i]) < 3000000) =>
                 \A i \in 1..2 : Near(mic'[i] - 500000, 2 * (mic[i] - 500000), 8)]_vars
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist]))
StartsSet == {<<-160000, 80000, 160000, 240000>>, <<0, 0, 320000, 320000>>}
=============================================================================
