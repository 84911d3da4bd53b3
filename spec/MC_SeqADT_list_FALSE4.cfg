SPECIFICATION MSpec
CONSTANTS Slots = {0, 1}
 Strings = FALSE
 MaxLen = 4
 Kind = "list"
 Illegal = FALSE
INVARIANTS SortOk RoundTrip CmpOk
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
