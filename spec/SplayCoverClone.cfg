CONSTANTS Init0 <- SplayInit Ops <- SplayOps Apply <- SplayApply
          Keys = {1, 2} KeyObjs = {1} ValObjs = {1} Kinds = {0} Clones = TRUE Depth = 0
INIT GInit
NEXT GNextEmit
VIEW GView
INVARIANTS OK
CHECK_DEADLOCK FALSE
