CONSTANTS
  Cfgs <- TRCfgs
  Faults = FALSE
INIT SInit
NEXT SNext
VIEW SView
INVARIANTS TypeOK TRExact RemovesOnlyCombined NoClobber ErrorsReported RemovedAllOnSuccess
CHECK_DEADLOCK FALSE
