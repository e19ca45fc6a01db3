------------------------------ MODULE RatesTrace ------------------------------
EXTENDS Harness, Rates
TInit == RatesInit
TFails(s, r) == RatesFails(s, r)
TAfter(s, r) == RatesAfter(s, r)
TTags(s, r) ==
  CASE r.e = "Ask" -> {"ask_" \o r.kind} \cup Tag("ask_mixture_of_several", r.kind = "mixture" /\ Len(r.par) > 1)
         \cup Tag("again", Known(s, r)) \cup Tag("off_axis", OneSided(r.kind, r.par))
         \cup Tag("at_the_peak", r.kind \in {"prior", "mixture"} /\ \E k \in DOMAIN r.lg : r.lg[k] > -100)
         \cup Tag("oblong", r.kind = "prior" /\ r.par[1][3] # r.par[1][4])
         \cup Tag("far", \E k \in DOMAIN r.lg : r.lg[k] < -100000)
    [] r.e = "Scene" -> {"scene_" \o r.how}
    [] r.e = "Load" -> {IF r.raised THEN "nothing_saved" ELSE "loaded"} \cup Tag("several_saved", Cardinality(DOMAIN s.disk) > 1)
    [] r.e = "Store" -> Tag("overwritten", r.dir \in DOMAIN s.disk)
    [] r.e = "Equal" -> {IF r.eq THEN "equal" ELSE "unequal"}
    [] r.e = "Draw" -> {"drawn"}
    [] OTHER -> {}
===============================================================================
