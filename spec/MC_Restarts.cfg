CONSTANTS
  Cfgs <- MCCfgs
  NS = 2
  NI = 2
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK NothingLost AllOrError DryTouchesNothing OthersStay IceKeepsAll
CHECK_DEADLOCK FALSE
