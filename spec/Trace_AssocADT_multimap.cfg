SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2}
 Kind = "multimap"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
