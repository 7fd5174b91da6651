INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 7
  Kind = "plain"
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
