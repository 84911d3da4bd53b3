SPECIFICATION MSpec
CONSTANTS N = 3
 Depth = 4
INVARIANT Refines
INVARIANT Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
