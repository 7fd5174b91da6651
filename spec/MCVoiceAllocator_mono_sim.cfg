INIT MCInit
NEXT MCNext
CONSTANTS
  NV = 4
  Notes = {0, 60, 62, 64, 65, 127}
  MaxDepth = 50
  StartMode = {"mono", "legato", "unison"}
  Steals = {"oldest"}
  Extra = {"pedal", "max", "mode", "reset", "midi"}
  MaxAge = 40
ACTION_CONSTRAINT EmitLast
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
