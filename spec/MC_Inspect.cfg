CONSTANTS
  Cfgs <- MCCfgs
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK OnlyListed AllListed
CHECK_DEADLOCK FALSE
