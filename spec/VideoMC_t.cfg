SPECIFICATION Spec
CONSTANTS
  MaxEvents = 8
  Generate = FALSE
INVARIANTS Accepted ClockForward
CHECK_DEADLOCK FALSE
