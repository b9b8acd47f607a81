CONSTANTS Init0 <- HashmapInit Ops <- HashmapOps Apply <- HashmapApply
          Keys = {1, 2, 3} KeyObjs = {1, 2} ValObjs = {1} Hashes = {0} Caps = {17} Depth = 0
INIT GInit
NEXT GNextEmit
VIEW GView
INVARIANTS OK
CHECK_DEADLOCK FALSE
