SPECIFICATION MSpec
CONSTANTS Trees = {0}
 N = 4
 Depth = 6
 Queries = TRUE
INVARIANT Mutual
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
