CONSTANTS
  Cfgs <- TRCfgs
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS TypeOK OnlyListed AllListed
CHECK_DEADLOCK FALSE
