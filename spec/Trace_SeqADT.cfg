SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2}
 Strings = FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
