CONSTANTS
  Cfgs <- MCCfgs
  Emit = FALSE
  MaxRec = 3
INIT Init
NEXT Next
INVARIANTS TypeOK OnePerFile Between Constant
CHECK_DEADLOCK FALSE
