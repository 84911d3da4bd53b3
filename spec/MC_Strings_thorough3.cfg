SPECIFICATION MSpec
INVARIANTS Shortest Metric FirstIs
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Sym = 3
  N = 3
