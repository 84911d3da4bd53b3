SPECIFICATION MSpec
INVARIANTS Shortest Metric FirstIs
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Sym = 2
  N = 5
