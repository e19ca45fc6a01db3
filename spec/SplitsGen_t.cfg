SPECIFICATION Spec
CONSTANTS
  MaxN = 12
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
