SPECIFICATION RoamSpec
CHECK_DEADLOCK FALSE
CONSTANT MaxCmds = 2
