SPECIFICATION Spec
CONSTANTS
  R = 1
  Depth = 2
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
