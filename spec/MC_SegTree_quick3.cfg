SPECIFICATION MSpec
CONSTANTS Slots = {0}
 MinLen = 1
 MaxLen = 3
 Depth = 3
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
