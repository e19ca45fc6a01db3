------------------------------ MODULE SplitsTrace ------------------------------
EXTENDS Harness, Splits
TInit == SplitsInit
TFails(s, r) == SplitsFails(s, r)
TAfter(s, r) == SplitsAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Split" -> {"split"} \cup Tag("no_test_examples", ~r.raised /\ r.test = <<>>)
    [] r.e = "Boot" -> {"boot"} \cup Tag("nothing_left", ~r.raised /\ r.test = <<>>)
    [] r.e = "Many" -> {"many_" \o r.how} \cup Tag("augmented", r.augment) \cup Tag("not_augmented", ~r.augment)
                       \cup Tag("test_cut", r.how = "boot" /\ ~r.raised /\ \E a \in DOMAIN r.trains : TestSize(r, a) # Shortest(r))
    [] r.e = "Fair" -> {"fair"}
    [] OTHER -> {}
===============================================================================
