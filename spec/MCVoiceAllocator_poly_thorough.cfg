INIT MCInit
NEXT MCNext
CONSTANTS
  NV = 3
  Notes = {0, 60, 61, 62}
  MaxDepth = 11
  StartMode = {"poly"}
  Steals = {"oldest", "never"}
  Extra = {"max", "reset"}
  MaxAge = 0
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
