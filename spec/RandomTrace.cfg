CONSTANTS Init0 <- RandomInit Step <- RandomStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
