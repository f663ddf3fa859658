CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Safe Tight Listed
CHECK_DEADLOCK FALSE
