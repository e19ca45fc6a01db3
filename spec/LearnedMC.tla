------------------------------- MODULE LearnedMC -------------------------------
(* A predictor A that is trained, distilled, saved and asked, and one B that   *)
(* loads.  Weights and normalisation state have versions of their own, the     *)
(* packaged network is made when first needed and dropped when the weights     *)
(* change; what a prediction answers depends on the version it was packaged    *)
(* with.  Learned must accept every prediction; it must notice a package that  *)
(* is not dropped, state that is not saved, and a package that     *)
(* is shared by all steps, and rates in canonical order.                       *)
EXTENDS Learned, Json
CONSTANTS MaxOps, Fault, Generate
VARIABLES st, w, s, pk, disk, n, h, bad, now
vars == <<st, w, s, pk, disk, n, h, bad, now>>
Objs == {"A", "B"}
Cfg == [current |-> TRUE, voltage |-> FALSE]
F == 7000
Init == /\ st = LearnedAfter(LearnedAfter(LearnedInit, [e |-> "Fresh", obj |-> "A"]), [e |-> "Fresh", obj |-> "B"])
        /\ w = [o \in Objs |-> IF o = "A" THEN 1 ELSE 2] /\ s = w
        /\ pk = [o \in Objs |-> ENone] /\ disk = ENone /\ n = 0 /\ h = <<>> /\ bad = {} /\ now = 3
Op(x, r) == n < MaxOps /\ n' = n + 1 /\ h' = Append(h, x) /\ st' = LearnedAfter(st, r)
Change(x, e) == /\ Op(x, [e |-> e, obj |-> "A"]) /\ w' = [w EXCEPT !["A"] = now] /\ s' = [s EXCEPT !["A"] = now] /\ now' = now + 1
                /\ pk' = IF Fault = "stale" THEN pk ELSE [pk EXCEPT !["A"] = ENone]
                /\ UNCHANGED <<disk, bad>>
Train == Change("T", "Train")
Distill == Change("D", "Distill")
Save(d, fx) == /\ Op(IF fx THEN "F" \o d ELSE "S" \o d, [e |-> "Save", obj |-> "A", dir |-> d, fixed |-> IF fx THEN <<F>> ELSE ENone, raised |-> FALSE])
               /\ LET p == [w |-> w["A"], s |-> s["A"], fx |-> fx]
                      new == Put(disk, d, [w |-> w["A"], s |-> s["A"], pk |-> p]) IN
                  /\ pk' = [pk EXCEPT !["A"] = p]
                  /\ disk' = IF Fault = "shared" THEN [k \in DOMAIN new |-> [new[k] EXCEPT !.pk = p]] ELSE new
               /\ UNCHANGED <<w, s, bad, now>>
Load(d) == /\ IF Generate THEN TRUE ELSE d \in DOMAIN disk
           /\ Op("L" \o d, [e |-> "Load", obj |-> "B", dir |-> d, raised |-> d \notin DOMAIN disk])
           /\ IF d \in DOMAIN disk
              THEN /\ w' = [w EXCEPT !["B"] = disk[d].w]
                   /\ s' = IF Fault = "state" THEN s ELSE [s EXCEPT !["B"] = disk[d].s]
                   /\ pk' = [pk EXCEPT !["B"] = disk[d].pk]
              ELSE UNCHANGED <<w, s, pk>>
           /\ UNCHANGED <<disk, bad, now>>
\* The network: any function of version, state and input.
Output(v, z, k) == 100000 * k + 20000 * ((v * 7 + k * 3) % 10) + 1000 * (z % 10)
Nbr == <<<<14200, 0>>, <<-7100, 12298>>, <<-7100, -12298>>>>
\* Labels 1 2 3; the beam is nearest to label 2.
Perms == {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 1, 3>>}
Canon == <<2, 3, 1>>
Predict(o, q) ==
  /\ ~Generate /\ n < MaxOps /\ n' = n + 1
  /\ LET p == IF pk[o] # ENone THEN pk[o] ELSE [w |-> w[o], s |-> s[o], fx |-> FALSE]
         \* The ensemble itself, and the packaged network.
         net == [k \in 1..3 |-> Output(w[o], s[o], k) + (IF p.fx THEN 3 ELSE 5)]
         out == [k \in 1..3 |-> Output(p.w, p.s, k) + (IF p.fx THEN 3 ELSE 5)]
         slot == [l \in 1..3 |-> CHOOSE k \in 1..3 : Canon[k] = l]
         r == [e |-> "Predict", obj |-> o, probe |-> 1, cfg |-> Cfg, na |-> 1000, kv |-> 0, lab |-> q, raised |-> FALSE, kept |-> TRUE, tot |-> w[o] * 100 + s[o] * 1000,
               n |-> [k \in 1..3 |-> Nbr[q[k]]], beam |-> <<-3550, 6149>>,
               ctx |-> (IF p.fx THEN <<F>> ELSE <<1000>>) \o <<7100, 0>>, net |-> net,
               got |-> [k \in 1..3 |-> IF Fault = "order" THEN out[k] ELSE out[slot[q[k]]]]]
     IN /\ bad' = bad \cup PredictFails(st, r) /\ st' = LearnedAfter(st, r)
        /\ pk' = [pk EXCEPT ![o] = p]
  /\ UNCHANGED <<w, s, disk, h, now>>
Ask == \E o \in Objs : \E q \in Perms : Predict(o, q)
\* Two steps that are saved in one folder.
Dirs == {"0", "1"}
SaveAny == \E d \in Dirs : \E fx \in BOOLEAN : Save(d, fx)
LoadAny == \E d \in Dirs : Load(d)
Next == Train \/ Distill \/ SaveAny \/ LoadAny \/ Ask
Spec == Init /\ [][Next]_vars
Accepted == Fault = "none" => bad = {}
\* With a fault, this must be violated (checked by the runner).
NeverNoticed == bad = {}
Fresh1 == Fault = "none" => \A o \in Objs : pk[o] # ENone => pk[o].w = w[o] /\ pk[o].s = s[o]
Gen == (Generate /\ n = MaxOps) => PrintT("GEN " \o ToJson([h |-> h]))
===============================================================================
