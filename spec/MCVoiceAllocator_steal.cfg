INIT MCInit
NEXT MCNext
CONSTANTS
  NV = 3
  Notes = {60, 62, 64, 65}
  MaxDepth = 8
  StartMode = {"poly"}
  Steals = {"oldest", "quietest", "highest", "lowest", "never"}
  Extra = {"age", "loud"}
  MaxAge = 2
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
