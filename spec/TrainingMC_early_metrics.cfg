SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxEpochs = 2
  Fault = "early_metrics"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
