CONSTANTS
  Cfgs <- MCCfgs
  Faults = TRUE
  MaxN = 4
  MaxRec = 3
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK ExactOnSuccess ExactWhenClosing RemovalSafe RemovesOnlyCombined NoClobber ErrorsReported RemovedAllOnSuccess
CHECK_DEADLOCK FALSE
