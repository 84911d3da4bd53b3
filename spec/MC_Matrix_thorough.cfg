SPECIFICATION MSpec
CONSTANTS
  N = 2
  M = 2
  Vals = {0, 1, 2, 3, 4, 5}
  K = 6
INVARIANTS Square Group Reduces
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
