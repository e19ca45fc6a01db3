SPECIFICATION Spec
CONSTANTS
  R = 1
  Depth = 3
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
