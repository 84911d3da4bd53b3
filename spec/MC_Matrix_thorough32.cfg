SPECIFICATION MSpec
CONSTANTS
  N = 3
  M = 2
  Vals = {0, 1, 2, 3}
  K = 1
INVARIANTS Square Group Reduces
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
