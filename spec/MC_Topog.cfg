CONSTANTS
  Cfgs <- MCCfgs
  Deep = FALSE
INIT MCInit
NEXT MCNext
INVARIANTS
  SameAsAtOnce MaskKept NeverDeeper Bounded Agree Reached LandKept Enough Thick WholeCells FlatBottom FirstRow
CHECK_DEADLOCK FALSE
