SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Leaks = {"none"}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
