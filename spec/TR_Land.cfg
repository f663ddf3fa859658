CONSTANTS
  Cfgs <- TRCfgs
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS TypeOK CombineKeepsAll ScatterKeepsAll DecompressOnlyGiven
CHECK_DEADLOCK FALSE
