CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
  Kind = "h"
INIT MCInit
NEXT MCNext
INVARIANTS AxesOk StretchOk
CHECK_DEADLOCK FALSE
