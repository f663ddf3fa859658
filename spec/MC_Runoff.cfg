CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Kept AllFound LandDry Homeless
CHECK_DEADLOCK FALSE
