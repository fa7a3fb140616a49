SPECIFICATION RandSpec
CONSTANTS
  Docs = {"a", "b", "c"}
  Held = {1, 2, 3, 4, 5, 6, 7, 8}
  Depth = 12
CHECK_DEADLOCK FALSE
