CONSTANTS
  Cfgs <- MCCfgs
  Emit = TRUE
  MaxFiles = 1
INIT Init
NEXT GenNext
INVARIANTS TypeOK Lossless Ordered Closed Distinct
CHECK_DEADLOCK FALSE
