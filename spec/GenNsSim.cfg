SPECIFICATION RoamSpec
CHECK_DEADLOCK FALSE
CONSTANT MaxItems = 1
