CONSTANTS
  Cfgs <- TRCfgs
  OneSchedule = TRUE
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS Tiled Sea Shore Waves Once
CHECK_DEADLOCK FALSE
