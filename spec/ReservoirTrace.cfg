CONSTANTS Init0 <- ReservoirInit Step <- ReservoirStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
