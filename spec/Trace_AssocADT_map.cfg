SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2}
 Kind = "map"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
