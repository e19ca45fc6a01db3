SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxEpochs = 2
  Fault = "noisy_metrics"
  Generate = FALSE
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
