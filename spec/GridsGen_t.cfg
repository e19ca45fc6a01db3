SPECIFICATION Spec
CONSTANTS
  MaxAtoms = 3
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
