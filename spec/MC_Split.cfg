CONSTANTS
  Cfgs <- MCCfgs
  Emit = FALSE
  MaxFiles = 1
INIT Init
NEXT Next
INVARIANTS TypeOK Lossless Ordered Closed Distinct
CHECK_DEADLOCK FALSE
