SPECIFICATION MSpec
CONSTANTS Slots = {0, 1}
 Strings = FALSE
 MaxLen = 2
 Kind = "list"
 Illegal = FALSE
INVARIANTS SortOk RoundTrip CmpOk
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
