SPECIFICATION MSpec
CONSTANTS N = 2
 Vals = {0, 1, 2}
INVARIANT Owned
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
