------------------------------- MODULE EvalTrace -------------------------------
EXTENDS Harness, Eval
TInit == EvalInit
TFails(s, r) == EvalFails(s, r)
TAfter(s, r) == EvalAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Seed" -> Tag("episode_ended", s.pc = "run" /\ s.last /\ s.zero)
                       \cup Tag("episode_truncated", s.pc = "run" /\ s.last /\ ~s.zero)
                       \cup Tag("episode_timed_out", s.pc = "run" /\ ~s.last)
                       \cup Tag("timed_out_by_agent", s.pc = "run" /\ ~s.last /\ s.env < s.timeout)
                       \cup Tag("exactly_at_timeout", s.pc = "run" /\ ~s.last /\ s.ag + s.env = s.timeout)
                       \cup Tag("no_action", s.pc = "run" /\ s.n = 0)
    [] r.e = "End" -> Tag("raised", r.raised) \cup Tag("raised_with_video", r.raised /\ s.video)
                      \cup Tag("video", ~r.raised /\ s.video) \cup Tag("no_seeds", s.seeds = <<>>)
                      \cup Tag("real", r.real) \cup Tag("other_observer", s.obsv # <<>>)
    [] r.e = "Agg" -> Tag("agg_none", r.of # <<>> /\ \A i \in DOMAIN r.of : ~r.of[i].reached)
                      \cup Tag("agg_some", \E i, j \in DOMAIN r.of : r.of[i].reached /\ ~r.of[j].reached)
                      \cup Tag("agg_all", r.of # <<>> /\ \A i \in DOMAIN r.of : r.of[i].reached)
    [] OTHER -> {}
===============================================================================
