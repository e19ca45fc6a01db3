SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Fault = "stale"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
