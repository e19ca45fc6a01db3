SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Fault = "swapped"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
