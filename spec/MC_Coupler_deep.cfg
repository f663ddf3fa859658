CONSTANTS
  Cfgs <- MCCfgs
  OneSchedule = TRUE
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Tiled Sea Shore Waves Once
CHECK_DEADLOCK FALSE
