SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxCmds = 2
