--------------------------------- MODULE Env ---------------------------------
(* The reinforcement learning environment as a state machine: an episode is   *)
(* over (or has not begun) or it is running.  A record describes one call of  *)
(* reset or step: what the components were asked during the call, in order,   *)
(* and the time step that was returned.                                       *)
(*   k      "reset" or "step"                                                 *)
(*   goal   what the goal would answer: cont, term, trunc; fail: goal.reset   *)
(*          raises (no valid goal)                                            *)
(*   comps  sequence of [c |-> component, obs, act]                           *)
(*   obs    identity of the observation the environment now holds             *)
(*   ts     [t |-> 0 first 1 mid 2 last, r, d, f]  (r in 1e-6)                *)
EXTENDS Integers, Sequences, FiniteSets, Discount

C(name, ok) == IF ok THEN {} ELSE {name}
EnvInit == [need |-> TRUE, obs |-> 0]

Calls(r, c) == {i \in DOMAIN r.comps : r.comps[i].c = c}
Once(r, c) == Cardinality(Calls(r, c)) = 1
Never(r, c) == Calls(r, c) = {}
The(r, c) == r.comps[CHOOSE i \in Calls(r, c) : TRUE]
Pos(r, c) == CHOOSE i \in Calls(r, c) : TRUE

Starts(st, r) == r.k = "reset" \/ st.need

BeginComponents == {"sim_reset", "adapter_reset", "features_reset", "goal_reset", "features"}
StepComponents == {"adapter", "sim_step", "features", "goal"}

FailsStart(st, r) ==
  IF r.raised
  THEN C("C06:reset_error_only_from_goal", r.goal = "fail")
  ELSE C("C06:goal_error_is_reported", r.goal # "fail")
       \cup C("C06:each_component_reset_once", \A c \in BeginComponents : Once(r, c))
       \cup C("C06:action_ignored_at_start", \A c \in {"adapter", "sim_step", "goal"} : Never(r, c))
       \cup C("C06:first", r.ts.t = 0)
       \cup C("C06:first_reward_zero", ~r.ts.rnone /\ r.ts.r = 0)
       \cup C("C06:discount,C03:discount", ~r.ts.dnone /\ IsGamma(r.ts.d, r.halves))
       \cup C("C06:new_observation", r.obs # st.obs)
       \cup (IF \A c \in BeginComponents : Once(r, c)
             THEN C("C06:goal_sees_new_observation", The(r, "goal_reset").obs = r.obs)
                  \cup C("C06:features_of_new_observation",
                         /\ The(r, "features").obs = r.obs /\ r.ts.f = The(r, "features").act
                         /\ Pos(r, "goal_reset") < Pos(r, "features"))
             ELSE {})

FailsStep(st, r) ==
  IF r.raised THEN {"C06:step_raises"} ELSE
  C("C06:each_component_consulted_once", \A c \in StepComponents : Once(r, c))
  \cup C("C06:no_reset_within_episode", \A c \in BeginComponents \ StepComponents : Never(r, c))
  \cup C("C06:step_type", r.ts.t = IF r.goal \in {"term", "trunc"} THEN 2 ELSE 1)
  \cup C("C06:reward_is_the_goals", ~r.ts.rnone /\ r.ts.r = r.reward)
  \cup C("C06:discount,C03:discount", /\ ~r.ts.dnone
                         /\ IF r.goal = "term" THEN r.ts.d = 0 ELSE IsGamma(r.ts.d, r.halves))
  \cup C("C06:new_observation", r.obs # st.obs)
  \cup (IF \A c \in StepComponents : Once(r, c)
        THEN C("C06:adapter_gets_previous_observation", The(r, "adapter").obs = st.obs)
             \cup C("C06:adapter_gets_action", The(r, "adapter").act = r.act)
             \cup C("C06:simulator_gets_adapters_controls", The(r, "sim_step").act = r.ctrl)
             \cup C("C06:features_of_new_observation",
                    The(r, "features").obs = r.obs /\ r.ts.f = The(r, "features").act)
             \cup C("C06:goal_judges_new_observation", The(r, "goal").obs = r.obs)
        ELSE {})

EnvFails(st, r) == IF r.e # "Call" THEN {}
                   ELSE IF Starts(st, r) THEN FailsStart(st, r) ELSE FailsStep(st, r)
EnvAfter(st, r) ==
  CASE r.e = "New" -> EnvInit
    [] r.e = "Call" ->
         IF r.raised THEN [need |-> TRUE, obs |-> r.obs]
         ELSE [need |-> ~Starts(st, r) /\ r.goal \in {"term", "trunc"}, obs |-> r.obs]
    [] OTHER -> st

(* --------------------------------------------------------------------------
   The step limit wrapper around any environment that follows the protocol.
   A record: the call made to the wrapper, the calls the wrapper made to the
   wrapped environment (each with the time step it returned), the time step
   the wrapper returned.  limit 0 stands for no limit.                        *)
WrapInit == [over |-> TRUE, truncated |-> FALSE, cnt |-> 0, limit |-> 0]

WStarts(st, r) == r.k = "reset" \/ st.over

WrapFails(st, r) ==
  IF r.e # "WCall" THEN {} ELSE
  IF Len(r.inner) # 1 THEN {"C07:one_inner_call"} ELSE
  LET i == r.inner[1]
      starts == WStarts(st, r)
      hit == st.limit > 0 /\ st.cnt + 1 >= st.limit
  IN IF starts
     THEN C("C07:reset_is_passed_on", r.k = "reset" => i.k = "reset")
          \cup C("C07:truncated_episode_is_abandoned", st.truncated => i.k = "reset")
          \cup C("C07:start_is_first", r.ts.t = 0)
          \cup C("C07:start_unchanged", r.ts = i.ts)
     ELSE C("C07:step_is_passed_on", i.k = "step" /\ i.act = r.act)
          \cup (IF hit THEN C("C07:truncated_at_limit", r.ts.t = 2)
                           \cup C("C07:truncation_keeps_the_step",
                                  r.ts = [i.ts EXCEPT !.t = 2])
                ELSE C("C07:not_before_limit", r.ts = i.ts))
WrapAfter(st, r) ==
  CASE r.e = "WNew" -> [WrapInit EXCEPT !.limit = r.limit]
    [] r.e = "WCall" ->
         IF Len(r.inner) = 0 THEN st ELSE
         LET starts == WStarts(st, r)
             n == IF starts THEN 0 ELSE st.cnt + 1
             cut == ~starts /\ st.limit > 0 /\ n >= st.limit
         IN [st EXCEPT !.cnt = n, !.truncated = cut,
                       !.over = cut \/ (~starts /\ r.inner[1].ts.t = 2)]
    [] OTHER -> st
WrapAttr(r) ==
  IF r.e # "WAttr" THEN {} ELSE C("C07:transparent", r.same)
=============================================================================
