CONSTANTS Init0 <- MimeInit Step <- MimeStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
