--------------------------------- MODULE Eval ---------------------------------
(* Evaluating an agent: one episode per seed of the suite.  Records are the   *)
(* calls that evaluate() makes to the agent and the environment and what they *)
(* answered; times in microseconds, rewards in 1e-4.                          *)
(*   Start  seeds, timeout, obsv: identities of the simulator's observers     *)
(*   Mode   mode                   set_mode of the agent                      *)
(*   Seed   s                      env.seed                                   *)
(*   EReset us, ts                 elapsed time and identity of the time step *)
(*   Act    ts, us, act            the time step it was given, how long it    *)
(*                                 thought, identity of the action            *)
(*   EStep  act, us, ts, r, last, zero                                        *)
(*   End    raised, boom, results, obsv, videos                               *)
(*   Agg    of, frac, acts, ag, env, both, rew   aggregate_results            *)
EXTENDS Integers, Sequences, FiniteSets

VC(name, ok) == IF ok THEN {} ELSE {name}
VAbs(x) == IF x < 0 THEN -x ELSE x

EvalInit == [seeds |-> <<>>, timeout |-> 0, obsv |-> <<>>, mode |-> "none", pc |-> "idle", idx |-> 0,
             ag |-> 0, env |-> 0, n |-> 0, tot |-> 0, ts |-> 0, act |-> 0, last |-> FALSE, zero |-> FALSE,
             done |-> <<>>, video |-> FALSE]

OverNow(st) == st.pc = "run" /\ (st.last \/ st.ag + st.env >= st.timeout)
Outcome(st) == LET ok == st.last /\ st.zero IN
               [seed |-> st.seeds[st.idx], reached |-> ok, n |-> st.n, tot |-> st.tot,
                ag |-> IF ok THEN st.ag ELSE -1, env |-> IF ok THEN st.env ELSE -1]
\* The results once the current episode is over.
Closed(st) == IF st.pc \in {"none", "idle"} THEN st.done ELSE Append(st.done, Outcome(st))

SameResult(a, b) ==
  VC("C19:result_seed", a.seed = b.seed)
  \cup VC("C19:reached_goal", a.reached = b.reached)
  \cup VC("C19:actions_counted", a.n = b.n)
  \cup VC("C19:total_reward", VAbs(a.tot - b.tot) <= b.n + 1)
  \cup VC("C19:agent_time", VAbs(a.ag - b.ag) <= b.n + 1)
  \cup VC("C19:environment_time", VAbs(a.env - b.env) <= 1)
  \cup VC("C19:seconds_to_goal", a.sum = (IF b.ag = -1 THEN -1 ELSE a.ag + a.env)
                                 \/ VAbs(a.sum - a.ag - a.env) <= 1)

EndFails(st, r) ==
  VC("C19:no_observer_left", r.obsv = st.obsv)
  \cup (IF r.raised THEN VC("C19:raises", r.boom)
        ELSE LET want == Closed(st) IN
          VC("C19:error_is_reported", ~r.boom)
          \cup VC("C19:one_episode_per_seed", st.idx = Len(st.seeds) /\ (st.seeds = <<>> \/ OverNow(st)))
          \cup VC("C19:one_result_per_seed", Len(r.results) = Len(st.seeds))
          \cup (IF Len(r.results) # Len(want) THEN {}
                ELSE UNION {SameResult(r.results[i], want[i]) : i \in DOMAIN want})
          \cup VC("C19:a_video_per_seed", r.videos = (IF st.video THEN st.seeds ELSE <<>>)))

\* Means over the successful results; 0 if there are none.  Sums are compared,
\* so the tolerance grows with the number of results.
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
AggFails(r) ==
  IF r.raised THEN VC("C19:aggregate_raises", r.of = <<>>) ELSE
  LET good == SelectSeq(r.of, LAMBDA x : x.reached)
      k == Len(good)
      mean(v, F(_)) == IF k = 0 THEN v = 0 ELSE VAbs(v * k - SumOf([i \in 1..k |-> F(good[i])])) <= 2 * k
  IN VC("C19:fraction_of_successes", VAbs(r.frac * Len(r.of) - 1000000 * k) <= Len(r.of))
     \cup VC("C19:mean_actions", mean(r.acts, LAMBDA x : 1000 * x.n))
     \cup VC("C19:mean_agent_time", mean(r.ag, LAMBDA x : x.ag))
     \cup VC("C19:mean_environment_time", mean(r.env, LAMBDA x : x.env))
     \cup VC("C19:mean_time", VAbs(r.both - r.ag - r.env) <= 2)
     \cup VC("C19:mean_reward", mean(r.rew, LAMBDA x : x.tot))

EvalFails(st, r) ==
  CASE r.e = "Mode" -> VC("C19:evaluation_mode", r.mode = "eval")
    [] r.e = "Seed" ->
         VC("C19:evaluation_mode", st.mode = "eval")
         \cup VC("C19:episode_finished_before_next", st.pc = "none" \/ OverNow(st))
         \cup VC("C19:seeds_in_order", st.idx < Len(st.seeds) /\ r.s = st.seeds[st.idx + 1])
    [] r.e = "EReset" -> VC("C19:fresh_episode_per_seed", st.pc = "seeded")
    [] r.e = "Act" ->
         VC("C19:stops_at_the_end", ~(st.pc = "run" /\ st.last))
         \cup VC("C19:stops_at_the_timeout", ~(st.pc = "run" /\ st.ag + st.env >= st.timeout))
         \cup VC("C19:fresh_episode_per_seed", st.pc = "run")
         \cup VC("C19:agent_sees_the_latest_step", r.ts = st.ts)
    [] r.e = "EStep" -> VC("C19:environment_gets_the_action", st.pc = "acted" /\ r.act = st.act)
    [] r.e = "End" -> EndFails(st, r)
    [] r.e = "Agg" -> AggFails(r)
    [] OTHER -> {}

EvalAfter(st, r) ==
  CASE r.e = "New" -> EvalInit
    [] r.e = "Start" -> [EvalInit EXCEPT !.seeds = r.seeds, !.timeout = r.timeout, !.obsv = r.obsv,
                                         !.pc = "none", !.video = r.video]
    [] r.e = "Mode" -> [st EXCEPT !.mode = r.mode]
    [] r.e = "Seed" -> [st EXCEPT !.done = IF st.idx = 0 \/ st.idx > Len(st.seeds) THEN @ ELSE Closed(st), !.pc = "seeded",
                                  !.idx = @ + 1]
    [] r.e = "EReset" -> [st EXCEPT !.pc = "run", !.ag = 0, !.env = r.us, !.n = 0, !.tot = 0, !.ts = r.ts,
                                    !.last = FALSE, !.zero = FALSE]
    [] r.e = "Act" -> [st EXCEPT !.pc = "acted", !.ag = @ + r.us, !.act = r.act]
    [] r.e = "EStep" -> [st EXCEPT !.pc = "run", !.env = @ + r.us, !.n = @ + 1, !.tot = @ + r.r, !.ts = r.ts,
                                   !.last = r.last, !.zero = r.zero]
    [] OTHER -> st
===============================================================================
