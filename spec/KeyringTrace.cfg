CONSTANTS Init0 <- KeyringInit Step <- KeyringStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
