CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Complete Alike NoneEmpty Masked Again
CHECK_DEADLOCK FALSE
