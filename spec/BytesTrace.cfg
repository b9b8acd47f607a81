CONSTANTS Init0 <- BytesInit Step <- BytesStep Regs = {} Payloads = {} Texts = {} Lens = {} MaxLen = 0
INIT CInit
NEXT CNext
INVARIANT OK
CHECK_DEADLOCK FALSE
