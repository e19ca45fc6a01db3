SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
