CONSTANTS Init0 <- TextInit Step <- TextStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
