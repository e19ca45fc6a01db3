SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Beams = {0}
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
