INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 5
  Focus = "buffers"
  Chans = 4
  MaxQ = 0
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
