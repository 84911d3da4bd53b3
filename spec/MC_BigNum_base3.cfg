SPECIFICATION MSpec
CONSTANTS
  Base = 3
  Cap = 4
  Step1 = 1
INVARIANTS Agrees Arrays
CHECK_DEADLOCK FALSE
