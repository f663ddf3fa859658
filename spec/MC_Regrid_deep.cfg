CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS Tiling InTiling Bounded SameAgain Conserved Identity
CHECK_DEADLOCK FALSE
