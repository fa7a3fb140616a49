SPECIFICATION Spec
CONSTANTS All = FALSE
CHECK_DEADLOCK FALSE
