CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Exact OnTile Once
CHECK_DEADLOCK FALSE
