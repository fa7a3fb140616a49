SPECIFICATION Spec
CONSTANT Part = "attrs"
CHECK_DEADLOCK FALSE
