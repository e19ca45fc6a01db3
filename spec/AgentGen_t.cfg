SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
