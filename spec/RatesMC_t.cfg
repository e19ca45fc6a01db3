SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Beams = {0, 5100, 12070, 2000, 17300, 26000}
  Generate = FALSE
INVARIANTS Accepted Again Threefold Mirrors Selective
CHECK_DEADLOCK FALSE
