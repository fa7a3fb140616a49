SPECIFICATION RoamSpec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Steps = 40
