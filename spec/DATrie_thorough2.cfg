SPECIFICATION DSpec
CONSTANTS Codes = {2, 3}
 MaxLen = 3
 Depth = 4
 Cap = 40
 Removals = TRUE
INVARIANT Retrieval
INVARIANT Iteration
INVARIANT Parents
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
