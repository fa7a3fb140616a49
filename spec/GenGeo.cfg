SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Family = "own"
