CONSTANTS
  Cfgs <- TRCfgs
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS TypeOK Lossless Ordered Closed
CHECK_DEADLOCK FALSE
