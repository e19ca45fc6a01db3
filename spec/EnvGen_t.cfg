SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Limits = {0, 1, 2, 3}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
