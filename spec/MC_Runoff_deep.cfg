CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Kept AllFound LandDry Homeless
CHECK_DEADLOCK FALSE
