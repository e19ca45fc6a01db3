------------------------------- MODULE LearnerMC -------------------------------
(* Runs of the script, one after another, in one of two directories.  Every   *)
(* run reads its data, derives contexts, trains, and replaces the files.      *)
(* Learner must accept all of them, and notice the faults.  Histories of      *)
(* configurations are printed for the driver.                                 *)
EXTENDS Learner, Json
CONSTANTS MaxRuns, Fault, Generate
VARIABLES st, runs, disk, bad, h
vars == <<st, runs, disk, bad, h>>
Learners == {"rate_network", "classification_network", "knn", "random_forest"}
Data == {<<[na |-> 10, kv |-> 500, dwell |-> 7, s |-> 0], [na |-> 30, kv |-> 700, dwell |-> 9, s |-> 1], [na |-> 20, kv |-> 400, dwell |-> 8, s |-> 0]>>,
         <<[na |-> 15, kv |-> 300, dwell |-> 4, s |-> 2], [na |-> 11, kv |-> 900, dwell |-> 6, s |-> 0]>>}
Cfg(l, na, kv, boot, val, aug, log) ==
  [learner |-> l, na |-> na, kv |-> kv, boot |-> boot, val |-> val, augment |-> aug, models |-> 2, decay |-> 3, rate |-> 4, epochs |-> 2, bs |-> 4, log |-> log, plot |-> FALSE, vis |-> log]
Cfgs == {Cfg(l, na, kv, b, v, a, g) : l \in Learners, na \in BOOLEAN, kv \in BOOLEAN, b \in BOOLEAN, v \in {0, 2}, a \in BOOLEAN, g \in BOOLEAN}
Init == /\ st = LearnerInit /\ runs = 0 /\ disk = JNone /\ bad = {} /\ h = <<>>
\* The median found by counting: as many lie below as above.
IsMedian(s, m2) == LET below == Cardinality({i \in DOMAIN s : 2 * s[i] < m2}) above == Cardinality({i \in DOMAIN s : 2 * s[i] > m2})
                   IN Abs(below - above) <= Cardinality({i \in DOMAIN s : 2 * s[i] = m2})
MedianIsMiddle == \A ps \in Data : \A f \in {"na", "kv", "dwell"} : IsMedian([i \in DOMAIN ps |-> ps[i][f]], 2 * Median([i \in DOMAIN ps |-> ps[i][f]]))
ASSUME MedianIsMiddle
Contexts(c, ps) == IF Fault = "swapped" THEN <<Minima(c, ps), Maxima(c, ps), Medians(c, ps)>> ELSE <<Maxima(c, ps), Minima(c, ps), Medians(c, ps)>>
Names == <<"max_context_rates.png", "min_context_rates.png", "avg_context_rates.png">>
Shape(c) == LET d == IF IsNet(c) THEN <<c.models, IF Fault = "one_epoch" THEN 1 ELSE c.epochs>> ELSE <<1, c.models>>
            IN IF IsNet(c) THEN [m \in NetMetrics |-> d] ELSE [m \in {"train_accuracy", "test_accuracy"} |-> d]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Run(dir, c, ps) ==
  /\ runs < MaxRuns /\ runs' = runs + 1 /\ h' = Append(h, [dir |-> dir, c |-> c])
  /\ IF Generate THEN UNCHANGED <<st, disk, bad>> ELSE
     LET old == IF dir \in DOMAIN disk THEN disk[dir].files ELSE {}
         files == old \cup (Expected(c) \ (IF Fault = "no_ensemble" THEN {c.learner \o "_ensemble.joblib"} ELSE {}))
         used == IF Fault = "stale" /\ dir \in DOMAIN disk THEN disk[dir] ELSE [c |-> c, ps |-> ps]
         calls == IF c.vis THEN [i \in 1..3 |-> [name |-> Names[i], ctx |-> Contexts(c, ps)[i], got |-> <<1>>, saved |-> <<1>>]] ELSE <<>>
         r == [e |-> "Script", dir |-> dir, cfg |-> c, points |-> ps, raised |-> FALSE, files |-> SetSeq(files), metrics |-> Shape(c), finite |-> TRUE, again |-> TRUE, other |-> TRUE, calls |-> calls]
         s1 == LearnerAfter(st, r)
         reload == [e |-> "Reload", dir |-> dir, raised |-> FALSE, ctx |-> Medians(used.c, used.ps), got |-> <<1>>, net |-> <<1>>, asked |-> <<1>>]
         model == [e |-> "Model", dir |-> dir, i |-> 0, hyper |-> <<>>, raised |-> FALSE, nin |-> Width(used.c) + 2, n |-> (IF used.c.boot THEN Len(used.ps) ELSE Len(used.ps) - (Len(used.ps) * used.c.val) \div 10) * Copies(used.c),
                   mean |-> [j \in 1..(Width(used.c) + 2) |-> IF j <= Width(used.c) THEN MeanInt(Column(used.c, used.ps, j), Len(used.ps)) ELSE 0], classes |-> <<0>>]
         vote == [e |-> "Vote", dir |-> dir, raised |-> FALSE, classes |-> <<<<0, 2>>, <<0, 1>>>>, probs |-> <<<<<<600, 400>>>>, <<<<200, 800>>>>>>,
                  ens |-> <<IF Fault = "unaligned" THEN <<400, 600, 0, 0>> ELSE <<400, 400, 200, 0>>>>]
     IN /\ st' = s1
        /\ bad' = bad \cup ScriptFails(st, r) \cup (IF IsNet(c) THEN ReloadFails(s1, reload) ELSE ModelFails(s1, model) \cup VoteFails(s1, vote))
        /\ disk' = (dir :> [c |-> c, ps |-> ps, files |-> files]) @@ disk
RunAny == ~Generate /\ \E dir \in {"A", "B"} : \E c \in Cfgs : \E ps \in Data : Run(dir, c, ps)
GenAny == Generate /\ \E dir \in {"A", "B"} : \E l \in Learners : \E na \in BOOLEAN : \E kv \in BOOLEAN : \E d \in {"boot", "val", "all"} : \E aug \in BOOLEAN :
           LET log == (na # kv) IN
           Run(dir, Cfg(l, na, kv, d = "boot", IF d = "val" THEN 2 ELSE 0, aug, log \/ aug), <<>>)
Next == RunAny \/ GenAny
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Gen == (Generate /\ runs = MaxRuns) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
