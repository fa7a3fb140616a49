SPECIFICATION Spec
CONSTANTS
  Docs = {"a", "b"}
  Held = {1, 2, 4}
  Depth = 4
INVARIANTS Behind Settled
PROPERTY CatchesUp
CHECK_DEADLOCK FALSE
