SPECIFICATION Spec
INVARIANT Inv
INVARIANT Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Steps = 0
