SPECIFICATION Spec
CONSTANTS N = 4
 Depth = 2
INVARIANT Refines
CHECK_DEADLOCK FALSE
