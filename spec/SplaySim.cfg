CONSTANTS Init0 <- SplayInit Ops <- SplayOpsW Apply <- SplayApply
          Keys = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24}
          KeyObjs = {1, 2, 3} ValObjs = {1, 2} Kinds = {0, 1, 2} Clones = TRUE Depth = 120
INIT GInit
NEXT GWalk
INVARIANTS OK EmitFull
CHECK_DEADLOCK FALSE
