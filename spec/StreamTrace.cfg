CONSTANTS Init0 <- StreamInit Step <- StreamStep NObj = 3 WithHmac = FALSE MaxMsg = 0
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
