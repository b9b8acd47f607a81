CONSTANTS Init0 <- SplayInit Ops <- SplayOpsW Apply <- SplayApply
          Keys = {1, 2, 3, 4, 5, 6, 7}
          KeyObjs = {1, 2, 3} ValObjs = {1, 2} Kinds = {0, 1, 2} Clones = TRUE Depth = 90
INIT GInit
NEXT GWalk
INVARIANTS OK EmitFull
CHECK_DEADLOCK FALSE
