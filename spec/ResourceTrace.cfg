CONSTANTS Init0 <- ResourceInit Step <- ResourceStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
