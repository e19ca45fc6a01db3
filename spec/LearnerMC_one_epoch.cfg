SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  Fault = "one_epoch"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
