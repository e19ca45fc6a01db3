SPECIFICATION Spec
CONSTANTS
  MaxEvents = 6
  Generate = FALSE
INVARIANTS Accepted ClockForward
CHECK_DEADLOCK FALSE
