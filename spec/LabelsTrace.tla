------------------------------ MODULE LabelsTrace ------------------------------
EXTENDS Harness, Labels
TInit == LabelsInit
TFails(s, r) == LabelsFails(s, r)
TAfter(s, r) == LabelsAfter(s, r)
L(r) == LET f == Facts(r) IN IF f.use # "must" THEN {f.why, "use_" \o f.use} ELSE
        {"label" \o ToString(Label(f, Mat(r.fov0, r.ctrls[1].p)))}
        \cup Tag("view_moved", r.fov0 # r.fov1)
        \cup Tag("silicon_not_first", f.s # 1)
TTags(s, r) ==
  CASE r.e = "Batch" -> UNION {L(r.ts[i]) : i \in DOMAIN r.ts} \cup Tag("no_transitions", r.ts = <<>>)
         \cup Tag("strict_used", ~r.raised /\ Len(r.out) > 0 /\ r.ts[1].cutoff < 500) \cup Tag("strict_mismatch", \E i \in DOMAIN r.ts : r.ts[i].cutoff < 500 /\ Facts(r.ts[i]).why = "mismatch")
         \cup Tag("days", \E i \in DOMAIN r.ts : Facts(r.ts[i]).why = "used" /\ r.ts[i].ctrls[1].dwell >= 2000000000)
    [] r.e = "Stack" -> {"stack"} \cup Tag("no_context", ~r.use_current /\ ~r.use_voltage)
                        \cup Tag("both_contexts", r.use_current /\ r.use_voltage)
    [] OTHER -> {}
===============================================================================
