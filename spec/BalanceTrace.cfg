CONSTANTS Init0 <- BalanceInit Step <- BalanceStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
