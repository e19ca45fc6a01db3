SPECIFICATION Spec
CONSTANTS
  MaxOps = 1
  Beams = {0, 5100, 12070}
  Generate = FALSE
INVARIANTS Accepted Again Threefold Mirrors Selective
CHECK_DEADLOCK FALSE
