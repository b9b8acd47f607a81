CONSTANTS Init0 <- BlobInit Step <- BlobStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
