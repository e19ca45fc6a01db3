SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Generate = FALSE
INVARIANTS Accepted Consistent PendingFirst
PROPERTIES OnlyGrows
CHECK_DEADLOCK FALSE
