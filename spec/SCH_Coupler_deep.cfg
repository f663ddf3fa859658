CONSTANTS
  Cfgs <- SCHCfgs
  OneSchedule = FALSE
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Tiled Sea Shore Waves Once
CHECK_DEADLOCK FALSE
