CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Conserved Bounded Settled Mutual Eight
CHECK_DEADLOCK FALSE
