CONSTANTS
  Cfgs <- MCCfgs
  MaxN = 16
  MaxD = 17
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK CutsArePartitions RoundTrip CellsOnce
CHECK_DEADLOCK FALSE
