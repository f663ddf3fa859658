CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
  Kind = "v"
INIT MCInit
NEXT MCNext
INVARIANTS AxesOk StretchOk
CHECK_DEADLOCK FALSE
