SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Generate = FALSE
INVARIANTS Accepted
PROPERTIES OrderIrrelevant ViewIrrelevant
CHECK_DEADLOCK FALSE
