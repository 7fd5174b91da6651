INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 4
  Focus = "buffers"
  Chans = 3
  MaxQ = 0
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
