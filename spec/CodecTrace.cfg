CONSTANTS Init0 <- CodecInit Step <- CodecStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
