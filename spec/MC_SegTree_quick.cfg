SPECIFICATION MSpec
CONSTANTS Slots = {0}
 MinLen = 1
 MaxLen = 5
 Depth = 2
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
