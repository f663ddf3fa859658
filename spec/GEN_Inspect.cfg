CONSTANTS
  Cfgs <- MCCfgs
  Emit = TRUE
INIT Init
NEXT GenNext
INVARIANTS TypeOK OnlyListed AllListed
CHECK_DEADLOCK FALSE
