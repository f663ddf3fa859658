CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Ends Single Found
CHECK_DEADLOCK FALSE
