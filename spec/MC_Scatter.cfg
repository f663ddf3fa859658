CONSTANTS
  Cfgs <- MCCfgs
  MaxN = 9
  MaxD = 10
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK CutsArePartitions RoundTrip CellsOnce
CHECK_DEADLOCK FALSE
