CONSTANTS Init0 <- LogInit Step <- LogStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
