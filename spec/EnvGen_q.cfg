SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Limits = {0, 1, 2, 3}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
