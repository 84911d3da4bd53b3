SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2}
 Kind = "set"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
