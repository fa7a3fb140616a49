SPECIFICATION Spec
CONSTANT Part = "children"
CHECK_DEADLOCK FALSE
