-------------------------------- MODULE VideoMC --------------------------------
(* A simulator emits events in any order; a renderer collects a frame at every *)
(* control and one at the end, and writes the clock digit by digit.  Every     *)
(* video must be accepted at every moment.                                     *)
EXTENDS Video, Json
CONSTANTS MaxEvents, Generate
VARIABLES st, snaps, cur, n, h, acc
vars == <<st, snaps, cur, n, h, acc>>
G(k) == [cs |-> <<<<k * 14200, 0>>, <<14200, 24600>>>>, sis |-> <<<<0, k * 7100>>>>]
Fov(k) == <<k * 1000, -2000, k * 1000 + 200000, 198000>>
Init == /\ st = [VideoInit EXCEPT !.grids = <<G(1), G(2)>>, !.grid = 1, !.fov = Fov(0)]
        /\ cur = [g |-> 1, f |-> 0, p |-> None, i |-> 0, t |-> 0] /\ snaps = <<>> /\ n = 0 /\ h = <<>> /\ acc = {}
Feed(op, r) == /\ n < MaxEvents /\ n' = n + 1 /\ h' = Append(h, op) /\ st' = VideoAfter(st, r)
Seen(p, f) == InView(p, Fov(f))
Draw(s) ==
  LET g == G(s.g) t == (s.t + 5000) \div 10000 pts == Points(s.p)
  IN [mat |-> [cs |-> g.cs, sis |-> g.sis, fov |-> Fov(s.f), beam |-> pts, goal |-> <<<<5, 6>>>>, limits |-> <<-20000, -20000, 90000, 90000>>],
      mic |-> [cs |-> [k \in DOMAIN g.cs |-> Seen(g.cs[k], s.f)], sis |-> [k \in DOMAIN g.sis |-> Seen(g.sis[k], s.f)],
               beam |-> [k \in DOMAIN pts |-> Seen(pts[k], s.f)], goal |-> <<Seen(<<5, 6>>, s.f)>>, limits |-> <<0, 0, 1000000, 1000000>>],
      img |-> s.i, form |-> TRUE, mm |-> t \div 6000, ss |-> (t \div 100) % 60, hh |-> t % 100]

Check == acc' = IF Generate THEN {} ELSE ShowFails(st', [raised |-> FALSE, goal |-> <<5, 6>>,
           frames |-> [k \in 1..(Len(snaps') + 1) |-> IF k <= Len(snaps') THEN Draw(snaps'[k]) ELSE Draw(cur')]])
Control == /\ Feed("A", [e |-> "Control", pos |-> <<n * 500, 700>>, dwell |-> 1999996])
           /\ cur' = [cur EXCEPT !.p = <<n * 500, 700>>, !.t = @ + 1999996]
           /\ snaps' = Append(snaps, [cur EXCEPT !.p = <<n * 500, 700>>]) /\ Check
Transition == /\ Feed("T", [e |-> "Transition", grid |-> 3 - st.grid]) /\ cur' = [cur EXCEPT !.g = 3 - @] /\ UNCHANGED snaps /\ Check
Image == /\ Feed("I", [e |-> "Image", fov |-> Fov(n), dur |-> 58004]) /\ cur' = [cur EXCEPT !.f = n, !.t = @ + 58004] /\ UNCHANGED snaps /\ Check
Generated == /\ Feed("G", [e |-> "Generated", img |-> n + 1]) /\ cur' = [cur EXCEPT !.i = n + 1] /\ UNCHANGED snaps /\ Check
Next == Control \/ Transition \/ Image \/ Generated
Spec == Init /\ [][Next]_vars
Accepted == acc = {}
ClockForward == \A k \in 1..(Len(snaps) - 1) : snaps[k].t < snaps[k + 1].t
Gen == (Generate /\ n = MaxEvents) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
