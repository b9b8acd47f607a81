CONSTANTS Init0 <- CipherObjInit Step <- CipherObjStep NObj = 3
INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
