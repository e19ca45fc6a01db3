SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MaxPut = 2
  Kinds = {"tr","obs","control","drift"}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
