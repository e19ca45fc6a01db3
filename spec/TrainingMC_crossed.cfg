SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxEpochs = 2
  Fault = "crossed"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
