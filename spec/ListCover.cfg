CONSTANTS Init0 <- ListInit Ops <- ListOps Apply <- ListApply
          Values = {1, 2, 11} Caps = {0, 2} MaxLen = 3 Depth = 0
INIT GInit
NEXT GNextEmit
VIEW GView
INVARIANTS OK
CHECK_DEADLOCK FALSE
