SPECIFICATION MSpec
CONSTANTS N = 3
 Vals = {0, 1, 2, 3}
INVARIANT Owned
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
