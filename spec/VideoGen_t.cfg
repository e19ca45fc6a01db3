SPECIFICATION Spec
CONSTANTS
  MaxEvents = 6
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
