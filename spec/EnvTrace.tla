------------------------------- MODULE EnvTrace -------------------------------
EXTENDS Harness, Env
TInit == [env |-> EnvInit, wrap |-> WrapInit]
TFails(s, r) == EnvFails(s.env, r) \cup WrapFails(s.wrap, r) \cup WrapAttr(r)
TAfter(s, r) == [env |-> EnvAfter(s.env, r), wrap |-> WrapAfter(s.wrap, r)]
TTags(s, r) ==
  CASE r.e = "Call" ->
         Tag("fresh_step", s.env.need /\ s.env.obs = 0 /\ r.k = "step")
         \cup Tag("step_after_end", s.env.need /\ s.env.obs # 0 /\ r.k = "step")
         \cup Tag("reset_mid_episode", ~s.env.need /\ r.k = "reset")
         \cup Tag("terminated", ~Starts(s.env, r) /\ r.goal = "term")
         \cup Tag("truncated_by_goal", ~Starts(s.env, r) /\ r.goal = "trunc")
         \cup Tag("failed_reset", Starts(s.env, r) /\ r.raised)
    [] r.e = "WCall" ->
         Tag("w_truncated", ~WStarts(s.wrap, r) /\ s.wrap.limit > 0 /\ s.wrap.cnt + 1 >= s.wrap.limit)
         \cup Tag("w_after_truncation", s.wrap.truncated /\ r.k = "step")
         \cup Tag("w_reset_after_truncation", s.wrap.truncated /\ r.k = "reset")
         \cup Tag("w_no_limit", s.wrap.limit = 0)
         \cup Tag("w_inner_end_at_limit", /\ ~WStarts(s.wrap, r) /\ s.wrap.limit > 0
                    /\ s.wrap.cnt + 1 = s.wrap.limit /\ r.inner # <<>> /\ r.inner[1].ts.t = 2)
         \cup Tag("w_inner_end_before_limit", /\ ~WStarts(s.wrap, r)
                    /\ (s.wrap.limit = 0 \/ s.wrap.cnt + 1 < s.wrap.limit)
                    /\ r.inner # <<>> /\ r.inner[1].ts.t = 2)
    [] r.e = "WAttr" -> {"w_attr"}
    [] OTHER -> {}
=============================================================================
