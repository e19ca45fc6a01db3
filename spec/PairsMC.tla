------------------------------- MODULE PairsMC -------------------------------
(* The extraction loop: one pass over the observations with registers for the *)
(* previous one.  "T" begins a trajectory, "m" (0..3) is an observation whose *)
(* image and label are present according to the bits of m.                    *)
EXTENDS Pairs, TLC, Json, Integers
CONSTANTS Depth, Generate
VARIABLES trajs, before, out, prev, hist, n
vars == <<trajs, before, out, prev, hist, n>>
None == [g |-> 0]
Init == /\ trajs = <<>> /\ before = None /\ out = <<>> /\ prev \in BOOLEAN /\ hist = <<>> /\ n = 0
Begin == /\ Len(hist) < Depth /\ trajs' = Append(trajs, <<>>) /\ before' = None
         /\ hist' = Append(hist, "T") /\ UNCHANGED <<out, prev, n>>
Obs(m) == /\ Len(hist) < Depth /\ trajs # <<>> /\ n' = n + 1
          /\ LET id == 10 * (n + 1)
                 o == [g |-> id + 1, f |-> id + 2, c |-> id + 3, i |-> (m % 2) * (id + 4), l |-> (m \div 2) * (id + 5)]
             IN /\ trajs' = [trajs EXCEPT ![Len(trajs)] = Append(@, o)]
                /\ before' = o
                /\ out' = IF before = None THEN out ELSE Append(out, Pair(before, o, prev))
          /\ hist' = Append(hist, ToString(m)) /\ UNCHANGED prev
Next == Begin \/ \E m \in 0..3 : Obs(m)
Spec == Init /\ [][Next]_vars
Accepted == PairsFails(PairsInit, [e |-> "Extract", raised |-> FALSE, trajs |-> trajs, prev |-> prev, out |-> out, kept |-> TRUE]) = {}
RECURSIVE CountObs(_)
CountObs(ts) == IF ts = <<>> THEN 0 ELSE Len(Head(ts)) + CountObs(Tail(ts))
NonEmpty == Cardinality({i \in DOMAIN trajs : trajs[i] # <<>>})
Counts == Len(out) = CountObs(trajs) - NonEmpty
\* Each observation is "before" at most once and "after" at most once.
Once == \A i, j \in DOMAIN out : i # j => out[i].g0 # out[j].g0 /\ out[i].g1 # out[j].g1
Gen == (Generate /\ Len(hist) = Depth /\ prev) => PrintT("GEN " \o ToJson([h |-> hist]))
===============================================================================
