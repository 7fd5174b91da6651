INIT MCInit
NEXT MCNext
CONSTANTS
  MaxLen = 14
  MaxDepth = 30
  Kinds = {0,1,2,3,4,5,6,7,8,9,10}
  Offs = {0,1,2,3,4}
ACTION_CONSTRAINT EmitLast
VIEW View
INVARIANT NoDuplicates
PROPERTY Steps
CHECK_DEADLOCK FALSE
