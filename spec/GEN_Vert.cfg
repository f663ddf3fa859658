CONSTANTS
  Cfgs <- GENCfgs
  Deep = FALSE
  Kind = "v"
INIT GENInit
NEXT GENNext
CHECK_DEADLOCK FALSE
