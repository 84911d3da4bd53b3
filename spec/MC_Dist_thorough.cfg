SPECIFICATION MSpec
INVARIANTS InSupport InverseOk Laws
PROPERTY Terminates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 10000
  Q = 256
  MaxN = 5
  Den = 6
