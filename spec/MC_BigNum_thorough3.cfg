SPECIFICATION MSpec
CONSTANTS
  Base = 10
  Cap = 3
  Step1 = 8
INVARIANTS Agrees Arrays
CHECK_DEADLOCK FALSE
