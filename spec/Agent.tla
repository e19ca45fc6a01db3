-------------------------------- MODULE Agent --------------------------------
(* The agent on a microscope and its log.  A record describes one call:       *)
(*   Reset  obs, comps                                                        *)
(*   Step   sil (a silicon is visible), goal (cont, term, trunc), obs, comps, *)
(*          the time step the agent was shown (shown = FALSE: none), the      *)
(*          controls that came back                                          *)
(*   Flush, Exit (of the context, exc = an exception was raised): what is on  *)
(*          disk afterwards                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Discount

AC(name, ok) == IF ok THEN {} ELSE {name}
AgentInit == [first |-> TRUE, done |-> <<>>, cur |-> <<>>, goal |-> 0, disk |-> [there |-> FALSE]]

ACalls(r, c) == {i \in DOMAIN r.comps : r.comps[i].c = c}
AOnce(r, c) == Cardinality(ACalls(r, c)) = 1
ANever(r, c) == ACalls(r, c) = {}
AThe(r, c) == r.comps[CHOOSE i \in ACalls(r, c) : TRUE]

FailsReset(st, r) ==
  AC("C13:each_component_reset_once", \A c \in {"features_reset", "goal_reset", "adapter_reset"} : AOnce(r, c))
  \cup AC("C13:reset_consults_nobody", \A c \in {"features", "goal", "agent", "adapter"} : ANever(r, c))
  \cup AC("C13:goal_reset_with_observation",
          AOnce(r, "goal_reset") => AThe(r, "goal_reset").obs = r.obs /\ AThe(r, "goal_reset").act = r.rng)

FailsRescan(r) ==
  AC("C13:rescan_without_agent", /\ ANever(r, "agent") /\ ANever(r, "adapter")
                                /\ \A c \in {"features_reset", "goal_reset", "adapter_reset"} : ANever(r, c))
  \cup AC("C13:rescan_control", r.back = <<[p |-> <<0, 0>>, dwell |-> 0]>>)

FailsAct(st, r) ==
  AC("C13:each_component_consulted_once", \A c \in {"features", "goal", "agent", "adapter"} : AOnce(r, c))
  \cup AC("C13:no_reset_within_episode",
          \A c \in {"features_reset", "goal_reset", "adapter_reset"} : ANever(r, c))
  \cup AC("C13:adapters_controls_come_back", r.back = r.ctrl)
  \cup (IF \A c \in {"features", "goal", "agent", "adapter"} : AOnce(r, c)
        THEN LET ts == r.ts IN
             AC("C13:same_observation", \A c \in {"features", "goal", "adapter"} : AThe(r, c).obs = r.obs)
             \cup AC("C13:adapter_gets_agents_action", AThe(r, "adapter").act = AThe(r, "agent").act)
             \cup AC("C13:features_shown", ts.f = AThe(r, "features").act)
             \cup AC("C13:step_type", ts.t = CASE r.goal \in {"term", "trunc"} -> 2
                                                [] st.first -> 0 [] OTHER -> 1)
             \cup (IF ts.t = 0
                   THEN AC("C13:first_has_no_reward", (ts.rnone \/ ts.r = 0)
                                                      /\ (ts.dnone \/ IsGamma(ts.d, r.halves)))
                   ELSE AC("C13:reward_is_the_goals", ~ts.rnone /\ ts.r = r.reward)
                        \cup AC("C13:discount", ~ts.dnone /\ IF r.goal = "term" THEN ts.d = 0
                                                             ELSE IsGamma(ts.d, r.halves)))
        ELSE {})

(* ------------------------------- the log ------------------------------- *)
Row(r) == [obs |-> r.obs, r |-> IF r.sil THEN r.reward ELSE 0, el |-> r.halves * 500000,
           term |-> r.sil /\ r.goal = "term"]

Episodes(st) == IF st.cur = <<>> THEN st.done ELSE Append(st.done, [steps |-> st.cur, goal |-> st.goal])

RECURSIVE SumR(_)
SumR(s) == IF s = <<>> THEN 0 ELSE Head(s).r + SumR(Tail(s))

EpSteps(n, s) == [i \in DOMAIN s |-> [ep |-> n, step |-> i, r |-> s[i].r, el |-> s[i].el, term |-> s[i].term]]
RECURSIVE AllSteps(_, _)
AllSteps(es, n) == IF n > Len(es) THEN <<>> ELSE EpSteps(n - 1, es[n].steps) \o AllSteps(es, n + 1)

Account(st) ==
  LET es == Episodes(st)
  IN [there |-> TRUE,
      steps |-> AllSteps(es, 1),
      eps |-> [i \in DOMAIN es |-> [ep |-> i - 1, n |-> Len(es[i].steps), ret |-> SumR(es[i].steps),
                                    goal |-> es[i].goal]],
      trajs |-> [i \in DOMAIN es |-> [j \in DOMAIN es[i].steps |-> es[i].steps[j].obs]]]

NearRet(a, b) == a - b \in -3..3
EqEps(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in DOMAIN a : /\ a[i].ep = b[i].ep /\ a[i].n = b[i].n
                                      /\ NearRet(a[i].ret, b[i].ret) /\ a[i].goal = b[i].goal

FailsDisk(d, want) ==
  IF ~want.there THEN AC("C14:nothing_written", ~d.there)
  ELSE IF ~d.there THEN {"C14:written"}
  ELSE AC("C14:steps", d.steps = want.steps)
       \cup AC("C14:episodes", EqEps(d.eps, want.eps))
       \cup AC("C14:trajectories", d.trajs = want.trajs)

DiskAfter(st, r) == IF r.e = "Exit" /\ r.exc THEN st.disk ELSE Account(st)

AgentFails(st, r) ==
  CASE r.e = "Reset" -> FailsReset(st, r)
    [] r.e = "Step" -> IF r.raised THEN {"C13:step_raises,C14:step_raises"}
                       ELSE IF r.sil THEN FailsAct(st, r) ELSE FailsRescan(r)
    [] r.e \in {"Flush", "Exit"} -> FailsDisk(r.disk, DiskAfter(st, r))
    [] OTHER -> {}

\* The log is about what happens through the logger; a bare agent has none.
AgentAfter(st, r) ==
  CASE r.e = "New" -> AgentInit
    [] r.e = "Reset" -> [st EXCEPT !.first = TRUE, !.done = Episodes(st), !.cur = <<>>, !.goal = r.goalpos]
    [] r.e = "Step" -> [st EXCEPT !.first = @ /\ ~r.sil, !.cur = Append(@, Row(r))]
    [] r.e \in {"Flush", "Exit"} -> [st EXCEPT !.disk = DiskAfter(st, r)]
    [] OTHER -> st
=============================================================================
