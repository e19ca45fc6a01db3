-------------------------------- MODULE EnvMC --------------------------------
(* The environment's and the wrapper's algorithms composed, driven by every   *)
(* sequence of calls and goal outcomes up to Depth.  TLC checks that the      *)
(* acceptors Env!EnvFails and Env!WrapFails allow everything they do, the     *)
(* dm_env protocol of the composition, and prints the schedules that the      *)
(* driver replays against the real classes.                                   *)
EXTENDS Env, TLC, Json

CONSTANTS Depth, Limits, Generate

VARIABLES need,      \* the environment's _requires_reset
          elapsed,   \* the wrapper's _elapsed_steps, -1: truncated
          obs, limit, hist, est, wst, fails, last, len
vars == <<need, elapsed, obs, limit, hist, est, wst, fails, last, len>>

Outcomes == {"cont", "term", "trunc", "fail"}
Init == /\ need = TRUE /\ elapsed = 0 /\ obs = 0 /\ hist = <<>> /\ est = EnvInit
        /\ limit \in Limits /\ wst = [WrapInit EXCEPT !.limit = limit]
        /\ fails = {} /\ last = "none" /\ len = 0

TS(t, r, d, f) == [t |-> t, r |-> r, d |-> d, f |-> f, rnone |-> FALSE, dnone |-> FALSE]

\* What the environment does when it is called; [rec, need, obs].
EnvCall(k, act, out) ==
  LET starts == k = "reset" \/ need
      o == obs + 1
      comp(c, ob, a) == [c |-> c, obs |-> ob, act |-> a]
      base == [e |-> "Call", k |-> k, goal |-> out, act |-> act, reward |-> 7, halves |-> 4,
               ctrl |-> 5, obs |-> o, raised |-> FALSE]
  IN IF starts
     THEN LET failed == out = "fail" IN
          [rec |-> base @@ [comps |-> <<comp("sim_reset", o, 0), comp("adapter_reset", 0, 0),
                            comp("features_reset", 0, 0), comp("goal_reset", o, 0)>>
                            \o (IF failed THEN <<>> ELSE <<comp("features", o, o)>>),
                            ts |-> TS(0, 0, Gamma(4), o)],
           raised |-> failed, need |-> failed]
     ELSE [rec |-> base @@ [comps |-> <<comp("adapter", obs, act), comp("sim_step", o, 5),
                            comp("features", o, o), comp("goal", o, 0)>>,
                            ts |-> CASE out = "term" -> TS(2, 7, 0, o)
                                     [] out = "trunc" -> TS(2, 7, Gamma(4), o)
                                     [] OTHER -> TS(1, 7, Gamma(4), o)],
           raised |-> FALSE, need |-> out \in {"term", "trunc"}]

\* "fail" only means something where an episode is started.
Call(k, out) ==
  /\ Len(hist) < Depth
  /\ LET ik == IF k = "reset" \/ elapsed = -1 THEN "reset" ELSE "step"
         starts == ik = "reset" \/ need
         ec == EnvCall(ik, 3, out)
         erec == [ec.rec EXCEPT !.raised = ec.raised]
         its == ec.rec.ts
         n == IF starts THEN 0 ELSE elapsed + 1
         cut == ~starts /\ limit > 0 /\ n >= limit
         wts == IF cut THEN [its EXCEPT !.t = 2] ELSE its
         wrec == [e |-> "WCall", k |-> k, act |-> 3,
                  inner |-> <<[k |-> ik, act |-> 3, ts |-> its]>>, ts |-> wts]
     IN /\ (out = "fail") => starts
        /\ starts => out \in {"cont", "fail"}
        /\ need' = ec.need /\ obs' = obs + 1
        /\ elapsed' = (IF ec.raised THEN (IF k = "reset" THEN 0 ELSE elapsed)
                       ELSE IF cut THEN -1 ELSE n)
        /\ fails' = EnvFails(est, erec) \cup (IF ec.raised THEN {} ELSE WrapFails(wst, wrec))
        /\ est' = EnvAfter(est, erec)
        \* A failed reset leaves the wrapper waiting for a new episode.
        /\ wst' = IF ec.raised THEN [wst EXCEPT !.over = TRUE, !.truncated = elapsed' = -1, !.cnt = 0]
                  ELSE WrapAfter(wst, wrec)
        /\ last' = IF ec.raised THEN "none"
                   ELSE CASE wts.t = 0 -> "first" [] wts.t = 1 -> "mid" [] OTHER -> "last"
        /\ len' = IF ec.raised \/ starts THEN 0 ELSE len + 1
  /\ hist' = Append(hist, IF k = "reset" THEN (IF out = "fail" THEN "RF" ELSE "R")
                          ELSE CASE out = "cont" -> "C" [] out = "term" -> "T"
                                 [] out = "trunc" -> "X" [] OTHER -> "F")
  /\ UNCHANGED limit

Next == \E k \in {"reset", "step"}, out \in Outcomes : Call(k, out)
Spec == Init /\ [][Next]_vars

Accepted == fails = {}
LimitRespected == limit > 0 => len <= limit
EndsAtLimit == limit > 0 /\ len = limit => last = "last"
FirstIffStart == last = "first" <=> (len = 0 /\ last # "none")
\* FIRST is followed by MID or LAST, LAST by FIRST (or a failed start).
Protocol == [][/\ last \in {"last", "none"} => last' \in {"first", "none"}
               /\ last = "mid" => last' # "first" \/ hist'[Len(hist')] \in {"R", "RF"}]_vars
Gen == (Generate /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson([h |-> hist, limit |-> limit]))
=============================================================================
