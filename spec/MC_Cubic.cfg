CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Conserved Bounded Settled Mutual Eight
CHECK_DEADLOCK FALSE
