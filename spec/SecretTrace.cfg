CONSTANTS Init0 <- SecretInit Step <- SecretStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
