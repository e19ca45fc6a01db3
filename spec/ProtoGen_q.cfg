SPECIFICATION Spec
CONSTANTS
  Depth = 3
  MaxPut = 2
  Kinds = {"tr","obs","control","drift"}
  Generate = TRUE
INVARIANTS Accepted Gen
CHECK_DEADLOCK FALSE
