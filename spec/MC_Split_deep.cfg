CONSTANTS
  Cfgs <- MCCfgs
  Emit = FALSE
  MaxFiles = 2
INIT Init
NEXT Next
INVARIANTS TypeOK Lossless Ordered Closed Distinct
CHECK_DEADLOCK FALSE
