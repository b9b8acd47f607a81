CONSTANTS Init0 <- ListInit Step <- ListStep Values = {} Caps = {} MaxLen = 0
INIT CInit
NEXT CNext
INVARIANT OK
CHECK_DEADLOCK FALSE
