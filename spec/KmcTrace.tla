------------------------------- MODULE KmcTrace -------------------------------
EXTENDS Harness, Kmc
TInit == 0
TFails(s, r) == KmcFails(r)
TAfter(s, r) == s
TTags(s, r) == {r.e}
=============================================================================
