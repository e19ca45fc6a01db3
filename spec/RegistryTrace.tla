----------------------------- MODULE RegistryTrace -----------------------------
EXTENDS Harness, Registry
TInit == RegInit
TFails(s, r) == RegFails(s, r)
TAfter(s, r) == RegAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Lookup" -> Tag("known", Known(s, r.kind, r.name)) \cup Tag("unknown", ~Known(s, r.kind, r.name))
                         \cup Tag("of_another_kind", ~Known(s, r.kind, r.name) /\ \E k \in {"microscope", "train", "eval"} : Known(s, k, r.name))
                         \cup Tag("own", r.kind = "eval" /\ r.name \in s.own) \cup Tag("looked_up_again", Seen(s, r.kind, r.name))
    [] r.e = "Register" -> Tag("added", r.name \notin EvalNames \cup s.own) \cup Tag("taken", r.name \in EvalNames) \cup Tag("own_taken", r.name \in s.own)
    [] r.e = "Build" -> {r.kind, "build_" \o r.adapter, "see_" \o r.features} \cup Tag("rates_" \o r.rates, r.kind # "microscope")
                        \cup Tag("timed", r.lo # r.hi)
    [] r.e = "Advance" -> {"advance"} \cup Tag("same_run_again", <<r.kind, r.name, r.seed, r.k>> \in DOMAIN s.runs)
    [] r.e = "Agent" -> IF r.name \in DOMAIN Ppo THEN {"fetch_" \o r.fault} \cup Tag("on_disk", Ppo[r.name] \in s.disk)
                        ELSE {r.agent} \cup Tag("fixed_time_agent", r.n = 2) \cup Tag("timed_agent", r.n = 3)
    [] OTHER -> {r.e}
===============================================================================
