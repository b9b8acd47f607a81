CONSTANTS Init0 <- ExceptionsInit Step <- ExceptionsStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
