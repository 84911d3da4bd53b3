SPECIFICATION LSpec
CONSTANTS N = 6
 Fam = "any"
INVARIANT Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
