CONSTANTS Init0 <- XmlTreeInit Step <- XmlTreeStep
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
