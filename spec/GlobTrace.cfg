CONSTANTS Init0 <- GlobInit Step <- GlobStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
