SPECIFICATION Spec
CONSTANTS
  MaxCalls = 3
  MaxCtrls = 2
  MaxHops = 3
  Radius = 850
  Half = 75000
  Dur = 2
INVARIANTS Accepted OneSilicon Bonded WithinDwell Clock SiliconInView FovSizeConstant ReplayFromEvents
PROPERTIES HopsOnlyToNeighbours OnlyHopsChangeMaterial FovMovesOnlyWhenUnsafe ZeroRateNeverPicked
CHECK_DEADLOCK FALSE
