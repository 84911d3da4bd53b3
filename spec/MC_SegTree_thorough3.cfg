SPECIFICATION MSpec
CONSTANTS Slots = {0}
 MinLen = 1
 MaxLen = 4
 Depth = 3
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
