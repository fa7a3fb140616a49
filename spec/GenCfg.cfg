SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANT Law
CHECK_DEADLOCK FALSE
