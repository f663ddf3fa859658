CONSTANTS
  Cfgs <- TRCfgs
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS Tiling InTiling Bounded
CHECK_DEADLOCK FALSE
