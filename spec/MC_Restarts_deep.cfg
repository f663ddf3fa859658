CONSTANTS
  Cfgs <- MCCfgs
  NS = 3
  NI = 0
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK NothingLost AllOrError DryTouchesNothing OthersStay IceKeepsAll
CHECK_DEADLOCK FALSE
