------------------------------- MODULE AgentMC -------------------------------
(* The microscope agent's and its logger's algorithms with their own state    *)
(* (pending first step, counters, buffers), driven by every sequence of calls *)
(* up to Depth.  The acceptor Agent!AgentFails, whose account of the run is   *)
(* computed from the history alone, must allow all they do; printed histories *)
(* are replayed against the real classes.                                     *)
EXTENDS Agent, TLC, Json
CONSTANTS Depth, Generate
VARIABLES isfirst, episode, epstep, epret, cur, trajs, steprec, eprec, goal, disk, n, hist, st, fails
vars == <<isfirst, episode, epstep, epret, cur, trajs, steprec, eprec, goal, disk, n, hist, st, fails>>
None == [there |-> FALSE]
Init == /\ isfirst = TRUE /\ episode = 0 /\ epstep = 0 /\ epret = 0 /\ cur = <<>> /\ trajs = <<>>
        /\ steprec = <<>> /\ eprec = <<>> /\ goal = 0 /\ disk = None /\ n = 0 /\ hist = <<>>
        /\ st = AgentInit /\ fails = {}
comp(c, o, a) == [c |-> c, obs |-> o, act |-> a]
EpRec == [ep |-> episode, n |-> epstep, ret |-> epret, goal |-> goal]

Judge(r, h) == /\ fails' = AgentFails(st, r) /\ st' = AgentAfter(st, r) /\ hist' = Append(hist, h)
               /\ n' = n + 1

Reset ==
  /\ Len(hist) < Depth
  /\ eprec' = IF epstep > 0 THEN Append(eprec, EpRec) ELSE eprec
  /\ episode' = IF epstep > 0 THEN episode + 1 ELSE episode
  /\ trajs' = IF cur # <<>> THEN Append(trajs, cur) ELSE trajs
  /\ epstep' = 0 /\ epret' = 0 /\ cur' = <<>> /\ isfirst' = TRUE /\ goal' = n
  /\ Judge([e |-> "Reset", obs |-> n, rng |-> 1, goalpos |-> n,
            comps |-> <<comp("features_reset", 0, 0), comp("goal_reset", n, 1), comp("adapter_reset", 0, 0)>>], "R")
  /\ UNCHANGED <<steprec, disk>>

Step(h, sil, out) ==
  /\ Len(hist) < Depth
  /\ LET rew == IF sil THEN n + 3 ELSE 0
         fin == sil /\ out \in {"term", "trunc"}
         t == IF fin THEN 2 ELSE IF isfirst THEN 0 ELSE 1
         ctrl == <<[p |-> <<n, 1>>, dwell |-> 5]>>
     IN /\ epstep' = epstep + 1 /\ epret' = epret + rew /\ cur' = Append(cur, n)
        /\ steprec' = Append(steprec, [ep |-> episode, step |-> epstep + 1, r |-> rew, el |-> 2 * 500000,
                                       term |-> sil /\ out = "term"])
        /\ isfirst' = (isfirst /\ ~sil)
        /\ Judge([e |-> "Step", sil |-> sil, goal |-> out, obs |-> n, reward |-> n + 3, halves |-> 2,
                  raised |-> FALSE, ctrl |-> ctrl,
                  back |-> IF sil THEN ctrl ELSE <<[p |-> <<0, 0>>, dwell |-> 0]>>,
                  comps |-> IF sil THEN <<comp("features", n, n), comp("goal", n, 0), comp("agent", 0, n),
                                          comp("adapter", n, n)>>
                            ELSE <<comp("features", n, n)>>,
                  ts |-> [t |-> t, f |-> n, r |-> IF t = 0 THEN 0 ELSE rew, rnone |-> t = 0, dnone |-> t = 0,
                          d |-> IF fin /\ out = "term" THEN 0 ELSE Gamma(2)]], h)
  /\ UNCHANGED <<episode, trajs, eprec, goal, disk>>

Written == [there |-> TRUE, steps |-> steprec,
            eps |-> IF epstep # 0 THEN Append(eprec, EpRec) ELSE eprec,
            trajs |-> IF cur # <<>> THEN Append(trajs, cur) ELSE trajs]
Flush == /\ Len(hist) < Depth
         /\ disk' = Written
         /\ Judge([e |-> "Flush", disk |-> disk'], "F")
         /\ UNCHANGED <<isfirst, episode, epstep, epret, cur, trajs, steprec, eprec, goal>>

Next == \/ Reset \/ Step("C", TRUE, "cont") \/ Step("T", TRUE, "term") \/ Step("X", TRUE, "trunc")
        \/ Step("N", FALSE, "cont") \/ Flush
Spec == Init /\ [][Next]_vars
Accepted == fails = {}
\* The rows of the steps and of the episodes agree with each other.
Consistent == disk.there =>
  /\ Len(disk.eps) = Len(disk.trajs)
  /\ \A i \in DOMAIN disk.eps :
       /\ disk.eps[i].ep = i - 1
       /\ Cardinality({j \in DOMAIN disk.steps : disk.steps[j].ep = i - 1}) = disk.eps[i].n
       /\ Len(disk.trajs[i]) = disk.eps[i].n
PendingFirst == isfirst <=> ~\E i \in DOMAIN hist :
                   hist[i] \in {"C", "T", "X"} /\ \A j \in i..Len(hist) : hist[j] # "R"
\* Logged episodes are final: later calls only add to them.
OnlyGrows == [][/\ Len(eprec') >= Len(eprec) /\ SubSeq(eprec', 1, Len(eprec)) = eprec
                /\ SubSeq(steprec', 1, Len(steprec)) = steprec]_vars
Gen == (Generate /\ Len(hist) = Depth /\ hist[1] = "R") => PrintT("GEN " \o ToJson([h |-> hist]))
=============================================================================
