CONSTANTS Init0 <- TimesInit Step <- TimesStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
