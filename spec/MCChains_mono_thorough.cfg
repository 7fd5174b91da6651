INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 7
  MaxNodes = 4
  Kinds = {"aff", "acc", "chain", "par"}
  StereoMode = FALSE
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
