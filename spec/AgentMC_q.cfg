SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Generate = FALSE
INVARIANTS Accepted Consistent PendingFirst
PROPERTIES OnlyGrows
CHECK_DEADLOCK FALSE
