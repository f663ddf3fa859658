CONSTANTS
  Cfgs <- TRCfgs
INIT TRInit
NEXT TRNext
VIEW View
INVARIANTS TypeOK CutsArePartitions RoundTrip
CHECK_DEADLOCK FALSE
