SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxNodes = 8
 MaxEffects = 3
