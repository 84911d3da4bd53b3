SPECIFICATION MSpec
CONSTANTS
  N = 3
  M = 3
  Vals = {0, 1, 2}
  K = 3
INVARIANTS Square Group Reduces
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
