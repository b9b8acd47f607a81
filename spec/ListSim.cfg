CONSTANTS Init0 <- ListInit Ops <- ListOps Apply <- ListApply
          Values = {1, 2, 3, 11, 12, 13, 25} Caps = {0, 1, 4} MaxLen = 9 Depth = 60
INIT GInit
NEXT GWalk
INVARIANTS OK EmitFull
CHECK_DEADLOCK FALSE
