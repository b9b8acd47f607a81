CONSTANTS Init0 <- TransferInit Step <- TransferStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
