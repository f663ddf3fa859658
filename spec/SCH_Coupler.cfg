CONSTANTS
  Cfgs <- SCHCfgs
  OneSchedule = FALSE
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Tiled Sea Shore Waves Once
CHECK_DEADLOCK FALSE
