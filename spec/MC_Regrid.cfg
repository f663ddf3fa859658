CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS Tiling InTiling Bounded SameAgain Conserved Identity
CHECK_DEADLOCK FALSE
