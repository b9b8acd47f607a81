CONSTANTS Init0 <- ManifestInit Step <- ManifestStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
