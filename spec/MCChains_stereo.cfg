INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 6
  MaxNodes = 4
  Kinds = {"saff", "sacc", "swp", "schain"}
  StereoMode = TRUE
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
