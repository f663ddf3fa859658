CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Closed Shared Ring Cover Inside
CHECK_DEADLOCK FALSE
