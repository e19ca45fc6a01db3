SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxEpochs = 2
  Fault = "overlap"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
