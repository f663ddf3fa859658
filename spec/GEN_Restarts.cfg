CONSTANTS
  Cfgs <- MCCfgs
  NS = 2
  NI = 2
  Emit = TRUE
INIT Init
NEXT GenNext
INVARIANTS TypeOK NothingLost AllOrError DryTouchesNothing OthersStay IceKeepsAll
CHECK_DEADLOCK FALSE
