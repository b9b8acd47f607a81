CONSTANTS Init0 <- PacketInit Step <- PacketStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
