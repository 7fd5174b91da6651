INIT MCInit
NEXT MCNext
CONSTANTS
  MaxDepth = 5
  MCKinds = {"line", "comb", "allpass", "taps", "mod"}
ACTION_CONSTRAINT Emit
VIEW View
INVARIANT Invs
PROPERTY Steps
CHECK_DEADLOCK FALSE
