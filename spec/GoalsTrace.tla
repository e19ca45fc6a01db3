------------------------------ MODULE GoalsTrace ------------------------------
EXTENDS Harness, Goals
TInit == GoalInit
TFails(s, r) == GoalFails(s, r)
TAfter(s, r) == GoalAfter(s, r)
TTags(s, r) ==
  CASE r.e = "GReset" ->
         Tag("no_silicon", Silicons(r) = {})
         \cup Tag("no_candidates", r.outcome = "RuntimeError")
         \cup Tag("many_silicons", Cardinality(Silicons(r)) > 1)
         \cup Tag("non_square", W(r.fov) # H(r.fov))
         \cup Tag("some_excluded", Silicons(r) # {} /\ r.outcome = "ok"
                    /\ \E i \in DOMAIN r.atoms : i # TheSi(r) /\ ~Maybe(r, s.lo, s.hi, i))
         \cup Tag("second_goal", s.set)
    [] r.e = "Judge" ->
         Tag("terminal", r.outcome = "ok" /\ r.term) \cup Tag("not_terminal", r.outcome = "ok" /\ ~r.term)
         \cup Tag("judge_" \o r.how, TRUE)
         \cup Tag("just_inside", r.outcome = "ok" /\ Silicons(r) # {} /\ r.how = "N"
                  /\ LET d == D2c(ToMat(r.fov, r.atoms[TheSi(r)].u), s.pos) IN d > Sq(60) /\ d < Sq(69))
         \cup Tag("just_outside", r.outcome = "ok" /\ Silicons(r) # {} /\ r.how = "E"
                  /\ LET d == D2c(ToMat(r.fov, r.atoms[TheSi(r)].u), s.pos) IN d > Sq(73) /\ d < Sq(90))
    [] r.e = "Picks" -> Tag("several_candidates", Len(r.picks) > 3)
    [] OTHER -> {}
=============================================================================
