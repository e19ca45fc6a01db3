------------------------------ MODULE AlignTrace ------------------------------
EXTENDS Harness, Align
TInit == AlignInit
TFails(s, r) == AlignFails(s, r)
TAfter(s, r) == AlignAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Obs" ->
         IF r.i \notin DOMAIN s.al THEN {} ELSE LET c == s.al[r.i] IN
         {"obs_" \o r.how} \cup Tag("hybrid_clipped", r.how = "hybrid" /\ c.hist # <<>> /\ Applied(c, r) # Sub2(c.hist[Len(c.hist)].at, r.off)) \cup Tag("first", c.hist = <<>>) \cup Tag("forgets", Len(c.hist) = c.keep)
         \cup Tag("clipped", c.hist # <<>> /\ Applied(c, r) # Sub2(c.hist[Len(c.hist)].at, r.off))
         \cup Tag("remembered_site", c.hist # <<>> /\ ~(AllSites(c.hist) \subseteq SetOf(r.sites)))
         \cup Tag("doped", \E k \in DOMAIN r.z : r.z[k] # 6)
    [] r.e = "Lost" -> Tag("lost_first", s.al[r.i].hist = <<>>) \cup Tag("lost_later", s.al[r.i].hist # <<>>)
    [] r.e = "Reset" -> Tag("reset", s.al[r.i].hist # <<>>)
    [] r.e = "Move" -> Tag("moved", s.al[r.i].hist # <<>>)
    [] r.e = "Latest" -> {"latest_" \o r.init} \cup Tag("outliers", r.outliers > 0)
    [] r.e = "Classes" -> {"classes"}
    [] r.e = "Scale" -> {"scale"}
    [] r.e = "Traj" -> {"traj_" \o r.via} \cup Tag("passes", r.passes > 1) \cup Tag("relabel", r.relabel)
    [] OTHER -> {}
===============================================================================
