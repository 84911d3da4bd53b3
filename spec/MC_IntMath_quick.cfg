SPECIFICATION MSpec
INVARIANTS GcdInv PowInv CombInv Correct BigAgrees
PROPERTY Terminates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 3
  N = 12
  NB = 4
  NE = 9
  NC = 12
