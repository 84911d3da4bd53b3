SPECIFICATION MSpec
CONSTANTS Trees = {0}
 N = 5
 Depth = 6
 Queries = FALSE
INVARIANT Mutual
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
