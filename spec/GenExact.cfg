SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxItems = 1
