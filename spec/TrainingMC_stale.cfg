SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxEpochs = 2
  Fault = "stale"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
