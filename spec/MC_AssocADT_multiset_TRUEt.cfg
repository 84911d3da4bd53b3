SPECIFICATION MSpec
CONSTANTS Slots = {0, 1}
 Kind = "multiset"
 NK = 3
 MaxLen = 3
 Illegal = TRUE
INVARIANT SortedOk
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
