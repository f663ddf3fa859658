CONSTANTS
  Cfgs <- GENCfgs
  Deep = FALSE
INIT GENInit
NEXT GENNext
CHECK_DEADLOCK FALSE
