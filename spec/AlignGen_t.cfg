SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Offsets = {2, 3}
  Sites = 3
  Keep = 2
  Clips = {30000}
  Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
