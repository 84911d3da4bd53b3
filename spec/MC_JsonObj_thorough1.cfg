SPECIFICATION MSpec
CONSTANTS
  Starts = {1, 2, 3}
  Depth = 2
INVARIANTS Denotes NoGarbage Forest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
