SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxEpochs = 2
  Fault = "summed"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
