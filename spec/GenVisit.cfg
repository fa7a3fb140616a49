SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxNodes = 4
 MaxEffects = 1
INVARIANTS Once EverythingSeen Nested Ordered Closed
