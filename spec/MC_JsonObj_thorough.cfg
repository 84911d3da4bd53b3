SPECIFICATION MSpec
CONSTANTS
  Starts = {2, 3}
  Depth = 3
INVARIANTS Denotes NoGarbage Forest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
