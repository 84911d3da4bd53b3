SPECIFICATION MSpec
CONSTANTS
  N = 2
  M = 2
  Vals = {0, 1, 2, 3}
  K = 5
INVARIANTS Square Group Reduces
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
