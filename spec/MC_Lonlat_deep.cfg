CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
  Kind = "h"
INIT MCInit
NEXT MCNext
INVARIANTS AxesOk StretchOk
CHECK_DEADLOCK FALSE
