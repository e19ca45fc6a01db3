SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Offsets = {0, 2, 3}
  Sites = 3
  Keep = 2
  Clips = {1500, 30000}
  Generate = FALSE
INVARIANTS Accepted FirstFrame Bounded
CHECK_DEADLOCK FALSE
