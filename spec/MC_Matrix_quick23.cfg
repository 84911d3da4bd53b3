SPECIFICATION MSpec
CONSTANTS
  N = 2
  M = 3
  Vals = {0, 1, 2}
  K = 1
INVARIANTS Square Group Reduces
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
