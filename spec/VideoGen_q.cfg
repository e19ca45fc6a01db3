SPECIFICATION Spec
CONSTANTS
  MaxEvents = 5
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
