SPECIFICATION MSpec
CONSTANT B = 4
INVARIANTS Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
