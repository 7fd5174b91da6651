INIT MCInit
NEXT MCNext
CONSTANTS
  NV = 6
  Notes = {0, 40, 60, 62, 64, 65, 70, 90, 127}
  MaxDepth = 50
  StartMode = {"poly"}
  Steals = {"oldest", "quietest", "highest", "lowest", "never"}
  Extra = {"age", "loud", "max"}
  MaxAge = 40
ACTION_CONSTRAINT EmitLast
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
