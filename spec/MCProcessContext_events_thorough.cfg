INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 9
  Focus = "events"
  Chans = 1
  MaxQ = 6
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
