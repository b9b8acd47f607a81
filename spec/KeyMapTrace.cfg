CONSTANTS Init0 <- KeyMapInit Step <- KeyMapStep NObj = 2
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
