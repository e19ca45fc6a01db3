SPECIFICATION Spec
CONSTANTS
  MaxAtoms = 3
  Generate = FALSE
INVARIANTS Accepted Relation
CHECK_DEADLOCK FALSE
