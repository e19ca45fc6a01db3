SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Leaks = {"none"}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
