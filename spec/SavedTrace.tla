------------------------------ MODULE SavedTrace ------------------------------
EXTENDS Harness, Saved
TInit == SavedInit
TFails(s, r) == SavedFails(s, r)
TAfter(s, r) == SavedAfter(s, r)
TTags(s, r) ==
  CASE r.e = "New" -> {r.kind}
    [] r.e = "Save" -> Tag("first", Fresh(s, r)) \cup Tag("replaced", ~Fresh(s, r) /\ r.over) \cup Tag("refused", ~Fresh(s, r) /\ ~r.over)
                       \cup Tag("relative", r.rel) \cup Tag("default_name", r.name = 3)
                       \cup Tag("best_is_older", Len(s.score) > 1 /\ Best(s) # s.vers[Len(s.vers)])
                       \cup Tag("best_is_newest", Len(s.score) > 1 /\ Best(s) = s.vers[Len(s.vers)])
    [] r.e = "Use" -> {"use_" \o r.kind} \cup Tag("older_than_best", Best(s) # s.files[r.name]) \cup Tag("all_steps", s.local > 3)
    [] OTHER -> {r.e}
===============================================================================
