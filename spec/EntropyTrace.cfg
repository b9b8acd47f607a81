CONSTANTS Init0 <- EntropyInit Step <- EntropyStep NObj = 3
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
