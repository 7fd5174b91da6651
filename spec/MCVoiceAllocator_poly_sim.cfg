INIT MCInit
NEXT MCNext
CONSTANTS
  NV = 5
  Notes = {0, 40, 60, 62, 64, 65, 70, 90, 127}
  MaxDepth = 50
  StartMode = {"poly"}
  Steals = {"oldest", "lowest", "never"}
  Extra = {"age", "max", "reset"}
  MaxAge = 40
ACTION_CONSTRAINT EmitLast
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
