SPECIFICATION LSpec
CONSTANTS N = 7
 Fam = "any"
INVARIANT Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
