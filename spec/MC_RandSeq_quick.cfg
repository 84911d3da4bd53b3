SPECIFICATION MSpec
INVARIANT Reproducible
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Gens = {1, 2}
  Seeds = {5}
  Depth = 2
