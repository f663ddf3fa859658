CONSTANTS
  Cfgs <- MCCfgs
  Deep = TRUE
INIT MCInit
NEXT MCNext
INVARIANTS
  SameAsAtOnce MaskKept NeverDeeper Bounded Agree Reached LandKept Enough Thick WholeCells FlatBottom FirstRow
CHECK_DEADLOCK FALSE
