CONSTANTS Init0 <- PathInit Step <- PathStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
