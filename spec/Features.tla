------------------------------- MODULE Features -------------------------------
(* What an agent is shown.  A record gives the view (1e-4 A), the atoms       *)
(* (microscope coordinates 1e-6, element), the goal (1e-4 A, material frame), *)
(* which constructor was asked, and the vector that came back.                *)
EXTENDS Goals

FeC(name, ok) == IF ok THEN {} ELSE {name}

\* Offset from the silicon in the units of the variant: 1e-6 of the frame, or
\* 1e-4 A; Len2 in units that fit.
Off(r, i) == LET s == r.atoms[TheSi(r)].u p == r.atoms[i].u IN
  IF r.variant = "unit" THEN <<p[1] - s[1], p[2] - s[2]>>
  ELSE <<Scale6(p[1] - s[1], W(r.fov)), Scale6(p[2] - s[2], H(r.fov))>>
Len2(d) == (d[1] \div 100) * (d[1] \div 100) + (d[2] \div 100) * (d[2] \div 100)

\* The others, nearest first (scenes without near ties).
RECURSIVE Ranked(_, _)
Ranked(r, left) ==
  IF left = {} THEN <<>>
  ELSE LET i == CHOOSE i \in left : \A j \in left : Len2(Off(r, i)) <= Len2(Off(r, j))
       IN <<i>> \o Ranked(r, left \ {i})
Neighbours(r) == SubSeq(Ranked(r, DOMAIN r.atoms \ {TheSi(r)}), 1, 3)

Same(o, d, variant) ==
  IF variant = "unit"
  THEN LET a == <<o[1] \div 100, o[2] \div 100>>
           b == <<d[1] \div 100, d[2] \div 100>>
       IN /\ Abs(a[1] * a[1] + a[2] * a[2] - 100000000) <= 400000
          /\ Abs(a[1] * b[2] - a[2] * b[1]) <= 40000
          /\ a[1] * b[1] + a[2] * b[2] > 0
  ELSE NearSeq(o, d, 25)

GoalDelta(r) == LET s == ToMat(r.fov, r.atoms[TheSi(r)].u) IN <<r.goal[1] - s[1], r.goal[2] - s[2]>>

FeatFails(r) ==
  IF r.e # "Feat" THEN {}
  ELSE IF Silicons(r) = {} THEN FeC("C31:silicon_not_found", r.outcome = "SiliconNotFoundError")
  ELSE IF r.outcome # "ok" THEN {"C31:outcome"}
  ELSE FeC("C31:shape_and_type", r.conform)
       \cup FeC("C31:observation_untouched", r.kept)
       \cup FeC("C31:goal_offset", NearSeq(r.delta, GoalDelta(r), 40))
       \cup (IF r.variant = "image"
             THEN FeC("C31:image_resized", NearSeq(r.blocks, r.want, 3000))
             ELSE FeC("C31:silicon_position",
                      IF r.variant = "unit" THEN NearSeq(r.si, r.atoms[TheSi(r)].u, 4)
                      ELSE NearSeq(r.si, ToMat(r.fov, r.atoms[TheSi(r)].u), 40))
                  \cup FeC("C31:three_nearest",
                      LET n == Neighbours(r) IN
                      \A k \in 1..3 : Same(r.offs[k], Off(r, n[k]), r.variant)))
=============================================================================
