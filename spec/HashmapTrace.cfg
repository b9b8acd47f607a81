CONSTANTS Init0 <- HashmapInit Step <- HashmapStep
          Keys = {} KeyObjs = {} ValObjs = {} Hashes = {} Caps = {}
INIT CInit
NEXT CNext
INVARIANT OK
CHECK_DEADLOCK FALSE
