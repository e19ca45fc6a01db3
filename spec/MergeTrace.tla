------------------------------ MODULE MergeTrace ------------------------------
EXTENDS Harness, Merge
TInit == MergeInit
TFails(s, r) == MergeFails(s, r)
TAfter(s, r) == MergeAfter(s, r)
Size(S) == Cardinality(S)
TTags(s, r) ==
  IF r.e \notin {"Naive", "Clique", "Spread"} \/ r.raised THEN {} ELSE
  CASE r.e = "Naive" -> {"naive"} \cup Tag("joined", \E k \in DOMAIN r.out : r.out[k][3] > 2)
         \cup Tag("added_later", \E k \in DOMAIN r.out : k > Len(r.obs[1]))
         \cup Tag("empty_view", \E k \in DOMAIN r.obs : r.obs[k] = <<>>)
         \cup Tag("two_join_one", \E k \in DOMAIN r.out : r.out[k][3] > Len(r.obs))
    [] r.e = "Clique" -> Tag("clique", Separated(r)) \cup Tag("chain", ~Separated(r))
         \cup Tag("weighted", Separated(r) /\ \E k \in DOMAIN r.cnt : r.cnt[k] > 1)
         \cup Tag("alone", Separated(r) /\ \A S \in Clusters(r) : Size(S) = 1)
    [] r.e = "Spread" -> {"spread"} \cup Tag("given_start", r.start # <<>>)
         \cup Tag("too_far", \E i \in DOMAIN r.orig : Dist2(r.orig[i], r.merged[Closest(r, i)]) >= Sq(r.thr))
         \cup Tag("contested", \E k \in DOMAIN r.merged : Size({r.orig[i][3] : i \in Givers(r, k)}) > 1)
===============================================================================
