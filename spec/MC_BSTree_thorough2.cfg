SPECIFICATION MSpec
CONSTANTS Trees = {0}
 N = 6
 Depth = 7
 Queries = FALSE
INVARIANT Mutual
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
