CONSTANTS MaxNode = 4
 InitElems = 3
 InitTexts = 1
SPECIFICATION Spec
INVARIANT Inv
INVARIANT FrameInv
CHECK_DEADLOCK FALSE
