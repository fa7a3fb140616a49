SPECIFICATION WalkSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Family = "own"
