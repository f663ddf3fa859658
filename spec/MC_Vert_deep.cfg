CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
  Kind = "v"
INIT MCInit
NEXT MCNext
INVARIANTS AxesOk StretchOk
CHECK_DEADLOCK FALSE
