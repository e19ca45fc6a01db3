-------------------------------- MODULE EvalMC --------------------------------
(* The evaluation loop against every environment (elapsed times, outcomes)    *)
(* and every agent (thinking times) up to Steps steps per episode.  TLC       *)
(* checks that the acceptor allows what the loop does and that it decides the *)
(* results; behaviours are replayed into the real code.                       *)
EXTENDS Eval, TLC, Json
CONSTANTS Seeds, Timeout, Steps, Thinks, Times, Generate
VARIABLES pc, k, ag, env, n, tot, ts, last, zero, results, hist, st, fails
vars == <<pc, k, ag, env, n, tot, ts, last, zero, results, hist, st, fails>>
Suite == [i \in 1..Seeds |-> 10 + i]
Feed(rs) == \* the records, one after the other, through the acceptor
  LET RECURSIVE F(_, _, _)
      F(s, f, q) == IF q = <<>> THEN [s |-> s, f |-> f]
                    ELSE F(EvalAfter(s, Head(q)), f \cup EvalFails(s, Head(q)), Tail(q))
  IN F(st, fails, rs)
Take(rs) == LET x == Feed(rs) IN /\ st' = x.s /\ fails' = x.f
Init == /\ pc = "next" /\ k = 0 /\ ag = 0 /\ env = 0 /\ n = 0 /\ tot = 0 /\ ts = 0 /\ last = FALSE /\ zero = FALSE
        /\ results = <<>> /\ hist = <<>> /\ fails = {}
        /\ st = EvalAfter(EvalAfter(EvalInit, [e |-> "Start", seeds |-> Suite, timeout |-> Timeout, obsv |-> <<>>,
                                               video |-> FALSE]), [e |-> "Mode", mode |-> "eval"])
Begin(e) ==
  /\ pc = "next" /\ k < Seeds
  /\ pc' = "run" /\ k' = k + 1 /\ ag' = 0 /\ env' = e /\ n' = 0 /\ tot' = 0 /\ ts' = ts + 1 /\ last' = FALSE /\ zero' = FALSE
  /\ Take(<<[e |-> "Seed", s |-> Suite[k + 1]], [e |-> "EReset", us |-> e, ts |-> ts + 1]>>)
  /\ hist' = Append(hist, <<[a |-> 0, e |-> e, o |-> "R"]>>)
  /\ UNCHANGED results
\* Episodes are at most Steps long: the last step ends or runs into the timeout.
Step(a, e, o) ==
  /\ pc = "run" /\ ~last /\ ag + env < Timeout
  /\ n + 1 >= Steps => (o # "C" \/ ag + env + a + e >= Timeout)
  /\ ag' = ag + a /\ env' = env + e /\ n' = n + 1 /\ ts' = ts + 1
  /\ last' = (o # "C") /\ zero' = (o = "T") /\ tot' = tot + n + 1
  /\ Take(<<[e |-> "Act", ts |-> ts, us |-> a, act |-> ts],
            [e |-> "EStep", act |-> ts, us |-> e, ts |-> ts + 1, r |-> n + 1, last |-> o # "C", zero |-> o = "T"]>>)
  /\ hist' = [hist EXCEPT ![k] = Append(@, [a |-> a, e |-> e, o |-> o])]
  /\ UNCHANGED <<pc, k, results>>
Close ==
  /\ pc = "run" /\ (last \/ ag + env >= Timeout)
  /\ pc' = "next"
  /\ LET ok == last /\ zero IN
     results' = Append(results, [seed |-> Suite[k], reached |-> ok, n |-> n, tot |-> tot,
                                 ag |-> IF ok THEN ag ELSE -1, env |-> IF ok THEN env ELSE -1,
                                 sum |-> IF ok THEN ag + env ELSE -1])
  /\ UNCHANGED <<k, ag, env, n, tot, ts, last, zero, hist, st, fails>>
Next == \/ \E e \in Times : Begin(e)
        \/ \E a \in Thinks, e \in Times, o \in {"C", "T", "X"} : Step(a, e, o)
        \/ Close
Spec == Init /\ [][Next]_vars
Finished == pc = "next" /\ k = Seeds
Accepted == fails = {}
EndAccepted == Finished => EvalFails(st, [e |-> "End", raised |-> FALSE, boom |-> FALSE, results |-> results,
                                          obsv |-> <<>>, videos |-> <<>>]) = {}
\* A run that reached the goal did so in time, all but for its last step.
InTime == \A i \in DOMAIN results : results[i].reached =>
            /\ results[i].n >= 1
            /\ \E a \in Thinks, e \in Times : results[i].ag + results[i].env - a - e < Timeout
Gen == (Generate /\ Finished) => PrintT("GEN " \o ToJson([t |-> Timeout, eps |-> hist]))
===============================================================================
