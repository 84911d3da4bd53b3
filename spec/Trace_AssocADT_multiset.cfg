SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2}
 Kind = "multiset"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
