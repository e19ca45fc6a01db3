SPECIFICATION Spec
CONSTANTS
  MaxObs = 3
  MaxDet = 2
  Places = {0, 1, 2, 3, 6}
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
