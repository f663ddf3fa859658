CONSTANTS
  Cfgs <- MCCfgs
  MaxF = 2
  Grids <- G2
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK CombineKeepsAll ScatterKeepsAll DecompressOnlyGiven
CHECK_DEADLOCK FALSE
