----------------------------- MODULE AdaptersTrace -----------------------------
EXTENDS Harness, Adapters
TInit == AdInit
TFails(s, r) == AdFails(s, r)
TAfter(s, r) == AdAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Act" ->
         {s.kind} \cup
         Tag("not_one_silicon", NeedsOne(s) /\ r.nsi # 1)
         \cup Tag("non_square", NeedsOne(s) /\ r.size[1] # r.size[2])
         \cup Tag("interpolated", NeedsOne(s) /\ s.lo # s.hi /\ r.k \in 1..63)
         \cup Tag("dwell_clipped", NeedsOne(s) /\ s.lo # s.hi /\ r.k > 64)
         \cup Tag(s.kind \o "_edge", ~r.raised /\ \E i \in 1..2 : r.out[1].p[i] \in {0, One})
         \cup Tag("unit_clipped", s.kind = "unit" /\ \E i \in 1..2 : Abs(r.a[i]) > One)
         \cup Tag("delta_moves", s.kind = "delta" /\ s.known /\ r.a # <<0, 0>>)
    [] r.e = "Start" -> Tag("second_start", s.starts # {})
         \cup UNION {Tag("start_low" \o ToString(i), r.start[i] < 150000)
                     \cup Tag("start_high" \o ToString(i), r.start[i] > 850000) : i \in 1..2}
    [] r.e = "Starts" -> {"starts"}
    [] r.e = "Spec" -> {"spec_" \o s.kind}
    [] OTHER -> {}
=============================================================================
