CONSTANTS Init0 <- SplayInit Step <- SplayStep
          Keys = {} KeyObjs = {} ValObjs = {} Kinds = {} Clones = FALSE
INIT CInit
NEXT CNext
INVARIANT OK
CHECK_DEADLOCK FALSE
