SPECIFICATION MSpec
INVARIANTS InSupport InverseOk Laws
PROPERTY Terminates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 10000
  Q = 64
  MaxN = 3
  Den = 4
