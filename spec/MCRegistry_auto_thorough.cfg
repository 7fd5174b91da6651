INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 6
  Kind = "auto"
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
