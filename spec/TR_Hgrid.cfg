CONSTANTS
  Cfgs <- TRCfgs
INIT TRInit
NEXT TRNext
VIEW View
CHECK_DEADLOCK FALSE
