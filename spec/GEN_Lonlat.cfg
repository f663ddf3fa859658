CONSTANTS
  Cfgs <- GENCfgs
  Deep = FALSE
  Kind = "h"
INIT GENInit
NEXT GENNext
CHECK_DEADLOCK FALSE
