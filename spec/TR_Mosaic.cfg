CONSTANTS
  Cfgs <- TRCfgs
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS Ends
CHECK_DEADLOCK FALSE
