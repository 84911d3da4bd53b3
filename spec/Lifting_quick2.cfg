SPECIFICATION LSpec
CONSTANTS N = 9
 Fam = "chains"
INVARIANT Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
