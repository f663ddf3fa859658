CONSTANTS
  Cfgs <- MCCfgs
  Emit = TRUE
  MaxRec = 1
INIT Init
NEXT GenNext
INVARIANTS TypeOK OnePerFile Between Constant
CHECK_DEADLOCK FALSE
