CONSTANTS MaxNode = 11
SPECIFICATION Spec
INVARIANT InitOK
CHECK_DEADLOCK FALSE
