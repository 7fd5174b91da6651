INIT MCInit
NEXT MCNext
CONSTANTS
  NV = 3
  Notes = {0, 60, 61}
  MaxDepth = 11
  StartMode = {"poly", "mono"}
  Steals = {"oldest", "never"}
  Extra = {"pedal", "midi"}
  MaxAge = 0
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
