INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 7
  What = "par"
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
