CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Complete Alike NoneEmpty Masked Again
CHECK_DEADLOCK FALSE
