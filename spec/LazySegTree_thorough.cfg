SPECIFICATION Spec
CONSTANTS N = 5
 Depth = 3
INVARIANT Refines
CHECK_DEADLOCK FALSE
