-------------------------------- MODULE MergeMC --------------------------------
(* Observations on a line are merged detection by detection with running       *)
(* means; every result must be accepted, detections are conserved, and merging *)
(* cliques of the same points agrees with it when clusters are separated.      *)
EXTENDS Merge, Json
CONSTANTS MaxObs, MaxDet, Places, Generate
VARIABLES obs, known, old
vars == <<obs, known, old>>
Unit == 3000
Cutoff == 7000
P(x) == <<x * Unit, 0>>
Init == obs = <<<<>>>> /\ known = <<>> /\ old = <<>>
Detect(x) ==
  /\ Len(obs[Len(obs)]) < MaxDet
  /\ LET p == P(x)
         near == {k \in DOMAIN old : \A j \in DOMAIN old : Abs(old[k].s \div old[k].n - p[1]) <= Abs(old[j].s \div old[j].n - p[1])}
         k == CHOOSE k \in near : \A j \in near : k <= j
     IN /\ Cardinality(near) <= 1       \* ties are not decided
        /\ known' = IF near # {} /\ Abs(old[k].s \div old[k].n - p[1]) < Cutoff
                    THEN [known EXCEPT ![k] = [s |-> @.s + p[1], n |-> @.n + 1]]
                    ELSE Append(known, [s |-> p[1], n |-> 1])
  /\ obs' = [obs EXCEPT ![Len(obs)] = Append(@, P(x))] /\ UNCHANGED old
NextObs == /\ Len(obs) < MaxObs /\ obs' = Append(obs, <<>>) /\ old' = known /\ UNCHANGED known
Next == (\E x \in Places : Detect(x)) \/ NextObs
Spec == Init /\ [][Next]_vars
Out == [k \in DOMAIN known |-> <<known[k].s \div known[k].n, 0, known[k].n>>]
Accepted == NaiveFails([raised |-> FALSE, obs |-> obs, cut |-> Cutoff, out |-> Out, kept |-> TRUE]) = {}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* With at most one detection per cluster and observation both ways agree.
Rec == [raised |-> FALSE, pts |-> Flat(obs), cnt |-> [k \in 1..Len(Flat(obs)) |-> 1], min |-> Cutoff - 1, out |-> Out, kept |-> TRUE]
OnePerCluster == \A q \in DOMAIN obs : \A a, b \in DOMAIN obs[q] : a # b => Dist2(obs[q][a], obs[q][b]) > Sq(Cutoff)
Agree == (OnePerCluster /\ Flat(obs) # <<>> /\ Separated(Rec)) => CliqueFails(Rec) = {}
Gen == (Generate /\ Len(obs) = MaxObs) => PrintT("GEN " \o ToJson([obs |-> [k \in DOMAIN obs |-> [j \in DOMAIN obs[k] |-> obs[k][j][1] \div Unit]]]))
===============================================================================
