INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 6
  What = "par"
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
