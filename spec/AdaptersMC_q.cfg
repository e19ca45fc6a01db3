SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Generate = FALSE
INVARIANTS Accepted Inside01 Remembered
PROPERTIES Bounded
CHECK_DEADLOCK FALSE
