--------------------------------- MODULE Goals ---------------------------------
(* The goal reaching goal.  An observation is its field of view (1e-4 A) and   *)
(* its atoms (microscope coordinates in 1e-6, element z).                     *)
(*   st: set (a goal is set), pos (1e-4 A, material frame), lo/hi range       *)
EXTENDS Frames, Discount

GC(name, ok) == IF ok THEN {} ELSE {name}
GoalInit == [set |-> FALSE, pos |-> <<0, 0>>, lo |-> 0, hi |-> 0]
Silicons(r) == {i \in DOMAIN r.atoms : r.atoms[i].z = 14}
\* Squared distance to the centre of the view, in (1e-4)^2.
FromCentre(p) == LET dx == (p[1] - 500000) \div 100
                     dy == (p[2] - 500000) \div 100 IN dx * dx + dy * dy
\* The visible silicon nearest the centre (scenes without near ties).
TheSi(r) == CHOOSE i \in Silicons(r) :
               \A j \in Silicons(r) : FromCentre(r.atoms[i].u) <= FromCentre(r.atoms[j].u)
\* Squared distance in (1e-2 A)^2 between two atoms of a view.
D2(f, p, q) == LET dx == Scale6(p[1] - q[1], W(f)) \div 100
                   dy == Scale6(p[2] - q[2], H(f)) \div 100 IN dx * dx + dy * dy
Sq(x) == x * x
Margin == 3                                              \* 0.03 A
\* lo, hi in 1e-2 A
Surely(r, lo, hi, i) == LET d == D2(r.fov, r.atoms[i].u, r.atoms[TheSi(r)].u) IN
  /\ d > Sq(lo + Margin) /\ d < Sq(Max2(0, hi - Margin))
Maybe(r, lo, hi, i) == LET d == D2(r.fov, r.atoms[i].u, r.atoms[TheSi(r)].u) IN
  /\ d >= Sq(Max2(0, lo - Margin)) /\ d <= Sq(hi + Margin)
At(r, i, pos) == NearSeq(ToMat(r.fov, r.atoms[i].u), pos, 30)

ResetGoalFails(st, r) ==
  IF Silicons(r) = {} THEN GC("C08:silicon_not_found", r.outcome = "SiliconNotFoundError")
  ELSE LET sure == {i \in DOMAIN r.atoms : Surely(r, st.lo, st.hi, i)}
           maybe == {i \in DOMAIN r.atoms : Maybe(r, st.lo, st.hi, i)}
       IN CASE r.outcome = "ok" -> GC("C08:goal_in_range", \E i \in maybe : At(r, i, r.pos))
                                   \cup GC("C08:observation_untouched", r.kept)
            [] r.outcome = "RuntimeError" -> GC("C08:error_only_without_candidates", sure = {})
            [] OTHER -> {"C08:outcome"}

\* Many resets with different generators on one observation: all candidates
\* are drawn.
PicksFails(st, r) ==
  IF Silicons(r) = {} THEN {} ELSE
  GC("C08:every_candidate_possible",
     \A i \in DOMAIN r.atoms : Surely(r, st.lo, st.hi, i) => \E k \in DOMAIN r.picks : At(r, i, r.picks[k]))

JudgeFails(st, r) ==
  IF Silicons(r) = {} THEN GC("C08:silicon_not_found", r.outcome = "SiliconNotFoundError")
  ELSE IF r.outcome # "ok" THEN {"C08:outcome"}
  ELSE LET si == ToMat(r.fov, r.atoms[TheSi(r)].u)
           far == Abs(si[1] - st.pos[1]) > 20000 \/ Abs(si[2] - st.pos[2]) > 20000
           d == IF far THEN Sq(200) ELSE D2c(si, st.pos)
           in == d < Sq(69)
           out == d > Sq(73)
       IN GC("C08:terminal_iff_at_goal", (in => r.term) /\ (out => ~r.term))
          \cup GC("C08:reward", IF r.term THEN IsGamma(r.reward, r.halves) ELSE r.reward = 0)
          \cup GC("C08:never_truncated", ~r.trunc)
          \cup GC("C08:goal_stays", NearSeq(r.pos, st.pos, 2))
          \cup GC("C08:observation_untouched", r.kept)

GoalFails(st, r) ==
  CASE r.e = "GReset" -> ResetGoalFails(st, r)
    [] r.e = "Picks" -> PicksFails(st, r)
    [] r.e = "Judge" -> JudgeFails(st, r)
    [] OTHER -> {}
GoalAfter(st, r) ==
  CASE r.e = "New" -> [GoalInit EXCEPT !.lo = r.lo, !.hi = r.hi]
    [] r.e = "GReset" -> IF r.outcome = "ok" THEN [st EXCEPT !.set = TRUE, !.pos = r.pos] ELSE st
    [] OTHER -> st
=============================================================================
