------------------------------ MODULE GridsTrace ------------------------------
EXTENDS Harness, Grids
TInit == GridsInit
TFails(s, r) == GridsFails(s, r)
TAfter(s, r) == GridsAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Eq" -> LET q == Same(r.a, r.b) IN
         Tag("equal", q /\ r.a # r.b) \cup Tag("different", ~q) \cup Tag("empty", r.a = <<>> /\ r.b = <<>>)
         \cup Tag("one_sided", Len(r.a) = Len(r.b) /\ Covers(r.a, r.b) # Covers(r.b, r.a))
         \cup Tag("coincident", ~q /\ Len(r.a) = Len(r.b) /\ \E i, j \in DOMAIN r.a : i # j /\ Close(r.a[i], r.a[j]))
         \cup Tag("element_only", ~q /\ Len(r.a) = Len(r.b) /\ \A i \in DOMAIN r.a : \E j \in DOMAIN r.b : Close(r.a[i], r.b[j]))
         \cup Tag("big", q /\ Len(r.a) > 50)
    [] r.e = "Hash" -> {"hash"}
    [] r.e = "Shift" -> {"shift"} \cup Tag("shift_empty", r.a = <<>>)
    [] OTHER -> {}
===============================================================================
