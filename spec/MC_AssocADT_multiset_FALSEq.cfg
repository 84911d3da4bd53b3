SPECIFICATION MSpec
CONSTANTS Slots = {0, 1}
 Kind = "multiset"
 NK = 2
 MaxLen = 3
 Illegal = FALSE
INVARIANT SortedOk
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
