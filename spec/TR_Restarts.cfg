CONSTANTS
  Cfgs <- TRCfgs
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS TypeOK NothingLost AllOrError DryTouchesNothing OthersStay IceKeepsAll
CHECK_DEADLOCK FALSE
