SPECIFICATION MSpec
INVARIANTS Partial Done
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 10000
  V = 3
  L = 4
