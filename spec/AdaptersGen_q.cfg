SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
