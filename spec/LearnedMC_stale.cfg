SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Fault = "stale"
  Generate = FALSE
INVARIANTS NeverNoticed
CHECK_DEADLOCK FALSE
