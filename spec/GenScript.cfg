SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxParts = 10
