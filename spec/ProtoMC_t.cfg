SPECIFICATION Spec
CONSTANTS
  Depth = 5
  MaxPut = 2
  Kinds = {"tr","obs","control","drift"}
  Generate = FALSE
INVARIANTS Accepted Independent ReadsLastWrite
CHECK_DEADLOCK FALSE
