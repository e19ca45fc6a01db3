------------------------------ MODULE DetectTrace ------------------------------
EXTENDS Harness, Detect
TInit == DetectInit
TFails(s, r) == DetectFails(s, r)
TAfter(s, r) == DetectAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Find" -> LET Z == {s.blobs[k][1] : k \in DOMAIN s.blobs} IN
         {r.via} \cup Tag("empty", Z = {}) \cup Tag("only_carbon", Z = {6}) \cup Tag("only_silicon", Z = {14}) \cup Tag("both", Z = {6, 14})
         \cup Tag("oblong", s.size[1] # s.size[2]) \cup Tag("some_in_border", \E k \in DOMAIN s.blobs : ~In(s, s.blobs[k], r.buf, 0))
         \cup (IF "pic" \in DOMAIN r THEN {r.pic} ELSE {})
         \cup Tag("several_silicon", Cardinality({k \in DOMAIN s.blobs : s.blobs[k][1] = 14}) > 1)
    [] OTHER -> {r.e}
===============================================================================
