CONSTANTS
  Cfgs <- GENCfgs
  OneSchedule = TRUE
  Deep = FALSE
INIT GENInit
NEXT GENNext
CHECK_DEADLOCK FALSE
