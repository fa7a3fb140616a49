SPECIFICATION TSpec
CONSTANTS
  Docs = {"a"}
  Held = {1}
  Depth = 1
CHECK_DEADLOCK FALSE
