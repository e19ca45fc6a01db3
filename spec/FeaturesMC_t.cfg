SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Generate = FALSE
INVARIANTS Accepted
PROPERTIES OrderIrrelevant ViewIrrelevant
CHECK_DEADLOCK FALSE
