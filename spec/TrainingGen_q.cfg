SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxEpochs = 1
  Fault = "none"
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
