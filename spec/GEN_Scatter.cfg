CONSTANTS
  Cfgs <- MCCfgs
  MaxN = 9
  MaxD = 10
  Emit = TRUE
INIT Init
NEXT GenNext
INVARIANTS TypeOK CutsArePartitions RoundTrip CellsOnce
CHECK_DEADLOCK FALSE
