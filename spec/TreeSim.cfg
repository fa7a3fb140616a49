CONSTANTS MaxNode = 11
 InitElems = 6
 InitTexts = 2
 Steps = 40
SPECIFICATION Spec
INVARIANT Inv
INVARIANT Done
CHECK_DEADLOCK FALSE
