SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
