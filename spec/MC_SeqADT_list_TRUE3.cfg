SPECIFICATION MSpec
CONSTANTS Slots = {0, 1}
 Strings = FALSE
 MaxLen = 3
 Kind = "list"
 Illegal = TRUE
INVARIANTS SortOk RoundTrip CmpOk
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
