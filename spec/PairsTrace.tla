------------------------------ MODULE PairsTrace ------------------------------
EXTENDS Harness, Pairs
TInit == PairsInit
TFails(s, r) == PairsFails(s, r)
TAfter(s, r) == PairsAfter(s, r)
Some(r, P(_)) == \E i \in DOMAIN r.trajs : P(r.trajs[i])
TTags(s, r) ==
  CASE r.e = "Extract" ->
         {r.how} \cup Tag("previous_controls", r.prev) \cup Tag("own_controls", ~r.prev)
         \cup Tag("no_trajectory", r.trajs = <<>>)
         \cup Tag("empty_trajectory", Some(r, LAMBDA t : Len(t) = 0))
         \cup Tag("single_observation", Some(r, LAMBDA t : Len(t) = 1))
         \cup Tag("long_trajectory", Some(r, LAMBDA t : Len(t) > 2))
         \cup Tag("several_trajectories", \E i, j \in DOMAIN r.trajs : i # j /\ Len(r.trajs[i]) > 1 /\ Len(r.trajs[j]) > 1)
         \cup Tag("image_lost", Some(r, LAMBDA t : \E k \in 1..(Len(t) - 1) : t[k].i # 0 /\ t[k + 1].i = 0))
         \cup Tag("image_gained", Some(r, LAMBDA t : \E k \in 1..(Len(t) - 1) : t[k].i = 0 /\ t[k + 1].i # 0))
         \cup Tag("label_lost", Some(r, LAMBDA t : \E k \in 1..(Len(t) - 1) : t[k].l # 0 /\ t[k + 1].l = 0))
    [] r.e = "Load" -> {"load_" \o r.how}
    [] OTHER -> {}
===============================================================================
