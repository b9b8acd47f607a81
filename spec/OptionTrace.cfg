CONSTANTS Init0 <- OptionInit Step <- OptionStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
