INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 7
  Focus = "params"
  Chans = 1
  MaxQ = 4
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
