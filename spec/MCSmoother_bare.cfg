INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 6
  What = "bare"
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
