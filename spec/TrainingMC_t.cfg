SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxEpochs = 2
  Fault = "none"
  Generate = FALSE
INVARIANTS Accepted Once
CHECK_DEADLOCK FALSE
