SPECIFICATION HSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  InitSt <- TInit
  Fails <- TFails
  After <- TAfter
  Tags <- TTags
