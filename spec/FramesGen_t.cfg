SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Starts <- StartsSet
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
