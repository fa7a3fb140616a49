SPECIFICATION GenSpec
CONSTANTS
  Docs = {"a", "b"}
  Held = {1, 2, 3, 4, 5}
  Depth = 3
CHECK_DEADLOCK FALSE
