SPECIFICATION MSpec
INVARIANTS SegMin SegSym SegLine OnBoth
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 10000
  U = 64
  G = 3
  K = 12
  GI = 3
