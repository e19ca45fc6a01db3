SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Fault = "unaligned"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
