SPECIFICATION MSpec
CONSTANTS
  Base = 10
  Cap = 2
  Step1 = 1
INVARIANTS Agrees Arrays
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
