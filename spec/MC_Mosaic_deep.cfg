CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Ends Single Found
CHECK_DEADLOCK FALSE
