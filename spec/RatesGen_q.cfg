SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Beams = {0}
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
