CONSTANTS Init0 <- SharedInit Step <- SharedStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
