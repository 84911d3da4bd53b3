SPECIFICATION MSpec
INVARIANTS ZipLaw MapLaw FilterLaw CastLaw
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 10000
  N = 2
  V = 2
