SPECIFICATION Spec
CONSTANTS
  MaxRuns = 1
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
