CONSTANTS Init0 <- BytesInit Ops <- BytesOpsW Apply <- BytesApply
          Regs = {1, 2, 3} Payloads <- Many Texts <- ManyTexts
          Lens = {0, 1, 2, 5, 16, 17, 100, 128, 129, 260} MaxLen = 700 Depth = 30
INIT GInit
NEXT GWalk
INVARIANTS OK EmitFull
CHECK_DEADLOCK FALSE
