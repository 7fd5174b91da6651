INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 5
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
