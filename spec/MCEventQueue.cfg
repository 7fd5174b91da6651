INIT MCInit
NEXT MCNext
CONSTANTS
  MaxLen = 3
  MaxDepth = 5
  Kinds = {0, 2}
  Offs = {0, 1, 2}
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT NoDuplicates
PROPERTY Steps
CHECK_DEADLOCK FALSE
