------------------------------ MODULE OrbitsTrace ------------------------------
EXTENDS Harness, Orbits
TInit == OrbitsInit
TFails(s, r) == OrbitsFails(s, r)
TAfter(s, r) == OrbitsAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Augment" ->
         {"fold" \o ToString(r.n)} \cup Tag("reflected", r.reflect) \cup Tag("not_reflected", ~r.reflect)
         \cup Tag("no_context", \E i \in DOMAIN r.in : r.in[i].ctx = <<>>)
         \cup Tag("stayed", \E i \in DOMAIN r.in : r.in[i].state = 0)
         \cup Tag("on_axis", \E i \in DOMAIN r.in : r.in[i].pos[2] = 0)
         \cup Tag("column", r.column) \cup Tag("flat", ~r.column)
         \cup {"state" \o ToString(r.in[i].state) : i \in DOMAIN r.in}
    [] r.e = "Synthetic" -> {"synthetic"}
    [] r.e = "States" -> {"states"}
    [] OTHER -> {}
===============================================================================
