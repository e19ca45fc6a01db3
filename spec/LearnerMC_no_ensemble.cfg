SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Fault = "no_ensemble"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
