SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Generate = FALSE
INVARIANTS Accepted Inside01 Remembered
PROPERTIES Bounded
CHECK_DEADLOCK FALSE
