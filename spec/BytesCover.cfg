CONSTANTS Init0 <- BytesInit Ops <- BytesOpsB Apply <- BytesApply
          Regs = {1, 2} Payloads <- Small Texts <- SmallTexts Lens = {0, 1} MaxLen = 3 Depth = 0
INIT GInit
NEXT GNextEmit
VIEW GView
INVARIANTS OK
CHECK_DEADLOCK FALSE
