CONSTANTS Init0 <- KeyringFileInit Step <- KeyringFileStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
