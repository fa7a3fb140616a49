SPECIFICATION SpecAll
CHECK_DEADLOCK FALSE
