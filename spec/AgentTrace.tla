------------------------------ MODULE AgentTrace ------------------------------
EXTENDS Harness, Agent
TInit == AgentInit
TFails(s, r) == AgentFails(s, r)
TAfter(s, r) == AgentAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Step" ->
         Tag("no_silicon_first", s.first /\ ~r.sil)
         \cup Tag("no_silicon_later", ~s.first /\ ~r.sil)
         \cup Tag("first", s.first /\ r.sil /\ r.goal = "cont")
         \cup Tag("first_terminal", s.first /\ r.sil /\ r.goal = "term")
         \cup Tag("terminal", ~s.first /\ r.sil /\ r.goal = "term")
         \cup Tag("truncated", ~s.first /\ r.sil /\ r.goal = "trunc")
         \cup Tag("pending_first", s.first /\ r.sil /\ s.cur # <<>>)
    [] r.e = "Reset" -> Tag("reset_without_steps", s.cur = <<>> /\ s.done # <<>>)
                        \cup Tag("reset_mid_episode", s.cur # <<>>)
    [] r.e = "Flush" -> Tag("second_flush", s.disk.there) \cup Tag("flush_mid_episode", s.cur # <<>>)
                        \cup Tag("flush_empty", s.cur = <<>> /\ s.done = <<>>)
    [] r.e = "Exit" -> Tag("exit_exception", r.exc) \cup Tag("exit", ~r.exc)
    [] OTHER -> {}
=============================================================================
