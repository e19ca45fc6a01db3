SPECIFICATION Spec
CONSTANTS
  MaxAtoms = 2
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
