CONSTANTS Init0 <- XmlInit Step <- XmlStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
