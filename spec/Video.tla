--------------------------------- MODULE Video ---------------------------------
(* A video of recorded events.  Positions are in 1e-4 A, or 1e-6 of the view;  *)
(* times in microseconds; grids and images are known by identity.              *)
(*   Grid     id, cs (carbons), sis (silicons)                                 *)
(*   Reset    grid, fov     Control pos, dwell     Transition grid             *)
(*   Image    fov, dur      Generated img                                      *)
(*   Show     goal, pics -> frames                                             *)
(*   Clock    s, us -> form (well formed), mm, ss, hh                          *)
EXTENDS Fixed, FiniteSets, TLC

VC(name, ok) == IF ok THEN {} ELSE {name}
None == <<>>
VideoInit == [grids |-> <<>>, grid |-> 0, fov |-> None, pos |-> None, img |-> 0, now |-> 0, frames |-> <<>>]
Current(st) == [grid |-> st.grid, fov |-> st.fov, pos |-> st.pos, img |-> st.img, now |-> st.now]
\* The frame of a control shows what there was when it was applied.
Event(st, r) ==
  CASE r.e = "Reset" -> [st EXCEPT !.grid = r.grid, !.fov = r.fov]
    [] r.e = "Control" -> [st EXCEPT !.pos = r.pos, !.now = @ + r.dwell,
                             !.frames = Append(@, [grid |-> st.grid, fov |-> st.fov, pos |-> r.pos, img |-> st.img, now |-> st.now])]
    [] r.e = "Transition" -> [st EXCEPT !.grid = r.grid]
    [] r.e = "Image" -> [st EXCEPT !.fov = r.fov, !.now = @ + r.dur]
    [] r.e = "Generated" -> [st EXCEPT !.img = r.img]
    [] OTHER -> st
Frames(st) == Append(st.frames, Current(st))

\* Minutes, seconds and hundredths of s seconds and us microseconds; at a tie
\* either neighbour will do.
Hundredths(s, us) == IF us % 10000 = 5000 THEN {s * 100 + us \div 10000, s * 100 + us \div 10000 + 1}
                     ELSE {s * 100 + (us + 5000) \div 10000}
Reads(form, mm, ss, hh, s, us) ==
  form /\ \E t \in Hundredths(s, us) : /\ mm = t \div 6000 /\ ss = (t \div 100) % 60 /\ hh = t % 100
ClockFails(r) == VC("C25:clock", Reads(r.form, r.mm, r.ss, r.hh, r.s, r.us))

SetOf(s) == {s[k] : k \in DOMAIN s}
Same(a, b) == Len(a) = Len(b) /\ SetOf(a) = SetOf(b)
TolView == 40
InView(p, fov) == <<Ratio6(p[1] - fov[1], fov[3] - fov[1]), Ratio6(p[2] - fov[2], fov[4] - fov[2])>>
NearP(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
SameView(got, want, fov) ==
  /\ Len(got) = Len(want)
  /\ \A k \in DOMAIN want : LET p == InView(want[k], fov) IN
       \/ k \in DOMAIN got /\ NearP(got[k], p, TolView)
       \/ \E j \in DOMAIN got : NearP(got[j], p, TolView)
Points(p) == IF p = None THEN <<>> ELSE <<p>>
FrameFails(st, g, goal, f, o) ==
  VC("C25:material", Same(o.mat.cs, g.cs))
  \cup VC("C25:silicon", Same(o.mat.sis, g.sis))
  \cup VC("C25:field_of_view", o.mat.fov = f.fov)
  \cup VC("C25:beam", o.mat.beam = Points(f.pos))
  \cup VC("C25:goal", o.mat.goal = <<goal>>)
  \cup VC("C25:both_frames", /\ SameView(o.mic.cs, g.cs, f.fov) /\ SameView(o.mic.sis, g.sis, f.fov)
                             /\ SameView(o.mic.beam, Points(f.pos), f.fov) /\ SameView(o.mic.goal, <<goal>>, f.fov)
                             /\ o.mic.limits = <<0, 0, 1000000, 1000000>>)
  \cup VC("C25:whole_material_visible", \A p \in SetOf(g.cs) \cup SetOf(g.sis) :
            p[1] >= o.mat.limits[1] /\ p[2] >= o.mat.limits[2] /\ p[1] <= o.mat.limits[3] /\ p[2] <= o.mat.limits[4])
  \cup VC("C25:image", o.img = f.img)
  \cup VC("C25:clock", Reads(o.form, o.mm, o.ss, o.hh, f.now \div 1000000, f.now % 1000000))
ShowFails(st, r) ==
  IF r.raised THEN {"C25:raises"}
  ELSE LET w == Frames(st) IN
       IF Len(r.frames) # Len(w) THEN {"C25:frame_per_control"}
       ELSE UNION {FrameFails(st, st.grids[w[k].grid], r.goal, w[k], r.frames[k]) : k \in DOMAIN w}

VideoFails(st, r) == CASE r.e = "Show" -> ShowFails(st, r) [] r.e = "Clock" -> ClockFails(r) [] OTHER -> {}
VideoAfter(st, r) ==
  CASE r.e = "New" -> VideoInit
    [] r.e = "Grid" -> [st EXCEPT !.grids = Append(@, [cs |-> r.cs, sis |-> r.sis])]
    [] OTHER -> Event(st, r)
===============================================================================
