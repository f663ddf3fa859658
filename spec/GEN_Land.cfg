CONSTANTS
  Cfgs <- MCCfgs
  MaxF = 2
  Grids <- G1
  Emit = TRUE
INIT Init
NEXT GenNext
INVARIANTS TypeOK CombineKeepsAll ScatterKeepsAll DecompressOnlyGiven
CHECK_DEADLOCK FALSE
