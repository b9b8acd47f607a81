CONSTANTS Init0 <- TempFileInit Step <- TempFileStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
