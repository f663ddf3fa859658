CONSTANTS
  Cfgs <- TRCfgs
  Faults = FALSE
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS TypeOK TRExact RemovesOnlyCombined NoClobber ErrorsReported RemovedAllOnSuccess
CHECK_DEADLOCK FALSE
