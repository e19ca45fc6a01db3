------------------------------ MODULE ReproTrace ------------------------------
EXTENDS Harness, Repro
TInit == ReproInit
TFails(s, r) == ReproFails(s, r)
TAfter(s, r) == ReproAfter(s, r)
TTags(s, r) ==
  IF r.e = "Other" THEN {"other_" \o r.what}
  ELSE IF ~IsCall(r) \/ r.i \notin DOMAIN s.inst THEN {} ELSE
  LET c == s.inst[r.i] k == Key(c, r.op) IN
  IF ~Live(c, r.op) THEN {"not_claimed"}
  ELSE Tag("again_" \o c.kind, k \in DOMAIN s.memo)
       \cup Tag("again_long", k \in DOMAIN s.memo /\ Len(k[3]) > 3)
       \cup Tag("second_reset", k \in DOMAIN s.memo /\ Len(k[3]) > 1 /\ r.op = "R")
===============================================================================
