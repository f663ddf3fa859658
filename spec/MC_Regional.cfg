CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Exact OnTile Once
CHECK_DEADLOCK FALSE
