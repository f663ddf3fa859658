CONSTANTS
  Cfgs <- MCCfgs
  Faults = TRUE
  MaxN = 3
  MaxRec = 2
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK ExactOnSuccess ExactWhenClosing RemovalSafe RemovesOnlyCombined NoClobber ErrorsReported RemovedAllOnSuccess
CHECK_DEADLOCK FALSE
