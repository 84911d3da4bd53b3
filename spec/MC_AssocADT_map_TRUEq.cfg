SPECIFICATION MSpec
CONSTANTS Slots = {0, 1}
 Kind = "map"
 NK = 2
 MaxLen = 2
 Illegal = TRUE
INVARIANT SortedOk
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
