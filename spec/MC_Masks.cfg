CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Safe Tight Listed
CHECK_DEADLOCK FALSE
