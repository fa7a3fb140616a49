SPECIFICATION RoamSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDecs = 2
  Family = "more"
