SPECIFICATION Spec
CONSTANTS
  MaxAtoms = 4
  Generate = FALSE
INVARIANTS Accepted Relation
CHECK_DEADLOCK FALSE
