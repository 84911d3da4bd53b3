SPECIFICATION DSpec
CONSTANTS Codes = {2, 3, 4}
 MaxLen = 2
 Depth = 5
 Cap = 40
 Removals = FALSE
INVARIANT Retrieval
INVARIANT Iteration
INVARIANT Parents
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
