SPECIFICATION MSpec
INVARIANTS IntInRange Reachable RealInRange Needed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 10000
  W = 6
  I = 3
  P = 4
