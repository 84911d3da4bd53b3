SPECIFICATION MSpec
CONSTANTS
  Base = 10
  Cap = 2
  Step1 = 7
INVARIANTS Agrees Arrays
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
