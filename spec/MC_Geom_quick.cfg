SPECIFICATION MSpec
INVARIANTS SegMin SegSym SegLine OnBoth
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 10000
  U = 64
  G = 2
  K = 8
  GI = 1
