SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
INVARIANTS EndsAsSaid NeverWrong
CHECK_DEADLOCK FALSE
