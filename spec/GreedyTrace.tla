------------------------------ MODULE GreedyTrace ------------------------------
EXTENDS Harness, Greedy
TInit == GreedyInit
TFails(s, r) == GreedyFails(s, r)
TAfter(s, r) == GreedyAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Greedy" ->
         {r.how} \cup (IF r.raised THEN {} ELSE
         Tag("best1", BestOf(r.n, r.g) = {1}) \cup Tag("best2", BestOf(r.n, r.g) = {2})
         \cup Tag("best3", BestOf(r.n, r.g) = {3}) \cup Tag("tie", Cardinality(BestOf(r.n, r.g)) > 1)
         \cup Tag("fixed_offset", r.fixed) \cup Tag("far_goal", Abs(r.g[1]) + Abs(r.g[2]) > 300000))
    [] r.e = "Find" -> {"find"}
    [] r.e = "Noise" -> {"noise"}
    [] r.e = "Random" -> {"random"} \cup Tag("per_component_bounds", r.vec)
    [] r.e = "Make" -> Tag("refused", r.wrong)
    [] OTHER -> {}
===============================================================================
