SPECIFICATION LSpec
CONSTANTS N = 12
 Fam = "chains"
INVARIANT Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
