------------------------------ MODULE TrainingMC ------------------------------
(* A learner that shuffles its examples, cuts them into batches, takes a      *)
(* gradient step for each and notes its metrics after every epoch.  Training  *)
(* must accept each of its runs, and notice the faults.  The likelihood of    *)
(* the specification is itself checked: its score has mean zero under the     *)
(* law it describes, and it is convex with the stated derivatives.            *)
EXTENDS Training, Json
CONSTANTS MaxN, MaxEpochs, Fault, Generate
VARIABLES n, bs, epochs, perm, k, th, ep0, seen, at, grads, moves, met, fails, done, cf
vars == <<n, bs, epochs, perm, k, th, ep0, seen, at, grads, moves, met, fails, done, cf>>

Rows == <<[a |-> <<2, 0>>, R |-> 4, t |-> 1, s |-> 1], [a |-> <<0, 1>>, R |-> 6, t |-> 2, s |-> 2],
          [a |-> <<1, 1>>, R |-> 4, t |-> 3, s |-> 0], [a |-> <<0, 2>>, R |-> 6, t |-> 1, s |-> 1]>>
Th0 == <<0, 0, 0>>
Moves == {<<1, 0, 0>>, <<0, -1, 2>>}

------------------------------------------------------------------------------
\* The specification's likelihood.
Examples == {[a |-> <<a1, a2>>, R |-> R, t |-> t, s |-> s] : a1 \in 0..2, a2 \in 0..2, R \in {4, 6}, t \in 1..4, s \in 0..2}
Thetas == {<<x, 0, y>> : x \in -1..1, y \in {-2, 0}}
P6(x, tt, s) ==  \* probability of s in 1e-6: 0 stays, the others share
  LET m == Halvings(x, tt) stay == 1000000 \div 2^m b == Logits(x, tt, FALSE)
  IN IF s = 0 THEN stay ELSE (((1000000 - stay) \div 100) * ((10000 * 2^b[s]) \div SumPow(b, 2))) \div 100
RECURSIVE ScoreSum(_, _, _, _)
ScoreSum(x, tt, j, s) == LET y == [x EXCEPT !.s = s] IN
  ((P6(x, tt, s) \div 100) * (GradAt(y, tt, 10, 10, FALSE, j) \div 10)) \div 10000 + (IF s = 0 THEN 0 ELSE ScoreSum(x, tt, j, s - 1))
ScoreHasMeanZero == \A x \in Examples : \A tt \in Thetas : \A j \in 1..3 : Halvings(x, tt) <= 14 => Abs(ScoreSum(x, tt, j, 2)) <= 60
\* Along a coordinate the loss lies between its tangents (step 2 for the total rate).
Convex == \A x \in Examples : \A tt \in Thetas : \A j \in 1..3 :
  LET d == IF j = 3 THEN 2 ELSE 1
      up == [tt EXCEPT ![j] = @ + d]
      G(t) == ((GradAt(x, t, 10, 10, FALSE, j) \div 100) * d * 6931) \div 100
      rise == Whole(x, up, 10, 10, FALSE) - Whole(x, tt, 10, 10, FALSE)
  IN Halvings(x, up) <= 14 => G(tt) - 150 <= rise /\ rise <= G(up) + 150
RatesSumToTotal == \A x \in Examples : \A tt \in Thetas : Near(RateOf(x, tt, FALSE, 1) + RateOf(x, tt, FALSE, 2), Total(x, tt) * 6931, 3)
ASSUME Generate \/ (ScoreHasMeanZero /\ Convex /\ RatesSumToTotal)

------------------------------------------------------------------------------
B == Min2(bs, n)
Per == n \div B
None == [op |-> "none"]
Configs ==
  {[op |-> "loss", kind |-> "loss", n |-> i, k |-> j, column |-> c, weighted |-> w] : i \in {1, 2, 5, 9, 16}, j \in 2..4, c \in BOOLEAN, w \in BOOLEAN}
  \cup {[op |-> "fit", kind |-> q, n |-> i, k |-> j, bs |-> x, epochs |-> e, models |-> m, column |-> c, weighted |-> w, again |-> g] :
          q \in {"epoch", "model", "models"}, i \in {2, 7, 8, 12}, j \in {2, 3}, x \in {2, 4, 10, 20}, e \in {1, 3}, m \in {2}, c \in BOOLEAN, w \in BOOLEAN, g \in BOOLEAN}
  \cup {[op |-> "distill", kind |-> q, n |-> i, k |-> j, batches |-> x, epochs |-> e, models |-> m, same |-> g] :
          q \in {"loss", "epoch", "many"}, i \in {8, 24}, j \in {2, 3}, x \in {1, 3}, e \in {1, 2}, m \in {1, 2, 3}, g \in BOOLEAN}
  \cup {[op |-> "real", kind |-> "real", k |-> j, batchnorm |-> b, dropout |-> d] : j \in {2, 3}, b \in BOOLEAN, d \in BOOLEAN}
Init == /\ perm = <<>> /\ k = 0 /\ th = Th0 /\ ep0 = Th0 /\ seen = <<>> /\ at = <<>> /\ grads = <<>> /\ moves = <<>>
        /\ met = [train_loss |-> <<>>, test_loss |-> <<>>, train_rate_loss |-> <<>>, train_class_loss |-> <<>>, test_rate_loss |-> <<>>, test_class_loss |-> <<>>]
        /\ fails = {} /\ done = FALSE
        /\ IF Generate THEN n = 1 /\ bs = 1 /\ epochs = 1 /\ cf \in Configs
           ELSE n \in 2..MaxN /\ bs \in 1..3 /\ epochs \in 1..MaxEpochs /\ cf = None
EpochNo == Len(met.train_loss) + 1
Draw == /\ ~Generate /\ ~done /\ EpochNo <= epochs /\ Len(perm) < n
        /\ \E x \in 1..n : (\/ Fault = "overlap" \/ \A i \in DOMAIN perm : perm[i] # x) /\ perm' = Append(perm, x)
        /\ ep0' = IF perm = <<>> THEN th ELSE ep0
        /\ UNCHANGED <<n, bs, epochs, k, th, seen, at, grads, moves, met, fails, done, cf>>
Crossed == [i \in DOMAIN Rows |-> [Rows[i] EXCEPT !.s = Rows[(i % Len(Rows)) + 1].s]]
Step == /\ ~Generate /\ ~done /\ Len(perm) = n /\ k < Per /\ k' = k + 1
        /\ LET ids == SubSeq(perm, k * B + 1, (k + 1) * B)
               where == IF Fault = "stale" THEN ep0 ELSE th
               rows == IF Fault = "crossed" THEN Crossed ELSE Rows
               g == [j \in 1..3 |-> MeanGrad(rows, ids, where, 10, 10, TRUE, j) * (IF Fault = "summed" THEN B ELSE 1)]
           IN /\ seen' = seen \o ids /\ grads' = Append(grads, g) /\ at' = Append(at, th)
              /\ \E m \in Moves : /\ \A j \in 1..3 : th[j] + m[j] \in -2..2
                                  /\ moves' = Append(moves, m) /\ th' = TAdd(th, m)
        /\ UNCHANGED <<n, bs, epochs, perm, ep0, met, fails, done, cf>>
EndEpoch == /\ ~Generate /\ ~done /\ Len(perm) = n /\ k = Per /\ k' = 0 /\ perm' = <<>>
            /\ LET where == IF Fault = "early_metrics" THEN ep0 ELSE th
                   M(rows, what) == MeanOf(rows, where, 10, 10, Fault = "noisy_metrics", what)
                   tr == SubSeq(Rows, 1, n)
                   te == SubSeq(Rows, 2, 3)
               IN met' = [train_loss |-> Append(met.train_loss, M(tr, "whole")), test_loss |-> Append(met.test_loss, M(te, "whole")),
                          train_rate_loss |-> Append(met.train_rate_loss, M(tr, "rate")), train_class_loss |-> Append(met.train_class_loss, M(tr, "class")),
                          test_rate_loss |-> Append(met.test_rate_loss, M(te, "rate")), test_class_loss |-> Append(met.test_class_loss, M(te, "class"))]
            /\ UNCHANGED <<n, bs, epochs, th, ep0, seen, at, grads, moves, fails, done, cf>>
Rec == [e |-> "Fit", rows |-> SubSeq(Rows, 1, n), tests |-> SubSeq(Rows, 2, 3), bs |-> bs, epochs |-> epochs, moves |-> moves, th0 |-> Th0, cw |-> 10, rw |-> 10,
        noise |-> TRUE, model |-> TRUE, init |-> 0, raised |-> FALSE, again |-> TRUE, seen |-> seen, at |-> at, grads |-> grads, th |-> th, met |-> met]
Finish == /\ ~Generate /\ ~done /\ EpochNo > epochs /\ done' = TRUE /\ fails' = FitFails(TrainingInit, Rec)
          /\ UNCHANGED <<n, bs, epochs, perm, k, th, ep0, seen, at, grads, moves, met, cf>>
Next == Draw \/ Step \/ EndEpoch \/ Finish
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
\* No example is shown twice before all batches of an epoch were used.
Once == \A e \in 1..(Len(seen) \div Max2(1, Per * B)) : Fault # "overlap" => Cardinality({seen[i] : i \in ((e - 1) * Per * B + 1)..(e * Per * B)}) = Per * B
Gen == Generate => PrintT("GEN " \o ToJson(cf))
===============================================================================
