CONSTANTS Init0 <- LockInit Step <- LockStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
