SPECIFICATION MSpec
CONSTANT B = 8
INVARIANTS Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
