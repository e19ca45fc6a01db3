----------------------------- MODULE FeaturesTrace -----------------------------
EXTENDS Harness, Features
TInit == [n |-> 0]
TFails(s, r) == FeatFails(r)
TAfter(s, r) == s
TTags(s, r) ==
  IF r.e # "Feat" THEN {} ELSE
  {r.variant} \cup Tag(r.variant \o "_no_silicon", Silicons(r) = {})
  \cup Tag(r.variant \o "_many_silicons", Cardinality(Silicons(r)) > 1)
  \cup Tag("silicon_not_first", Silicons(r) # {} /\ r.outcome = "ok" /\ TheSi(r) > 1)
  \cup Tag("non_square", W(r.fov) # H(r.fov))
  \cup Tag("metric_matters", /\ r.variant = "unit" /\ Silicons(r) # {}
              /\ Neighbours(r) # Neighbours([r EXCEPT !.variant = "material"]))
=============================================================================
