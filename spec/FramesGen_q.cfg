SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Starts <- StartsSet
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
