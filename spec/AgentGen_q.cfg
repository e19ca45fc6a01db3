SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
