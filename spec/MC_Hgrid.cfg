CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Closed Shared Ring Cover Inside
CHECK_DEADLOCK FALSE
