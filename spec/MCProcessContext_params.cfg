INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 6
  Focus = "params"
  Chans = 1
  MaxQ = 3
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
