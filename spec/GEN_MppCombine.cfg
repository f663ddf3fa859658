CONSTANTS
  Cfgs <- MCCfgs
  Faults = FALSE
  MaxN = 3
  MaxRec = 2
  Emit = TRUE
INIT Init
NEXT GenNext
INVARIANTS TypeOK ExactOnSuccess ExactWhenClosing RemovalSafe RemovesOnlyCombined NoClobber ErrorsReported RemovedAllOnSuccess
CHECK_DEADLOCK FALSE
