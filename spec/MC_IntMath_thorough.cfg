SPECIFICATION MSpec
INVARIANTS GcdInv PowInv CombInv Correct BigAgrees
PROPERTY Terminates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 3
  N = 30
  NB = 6
  NE = 10
  NC = 14
