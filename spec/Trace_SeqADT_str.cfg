SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2}
 Strings = TRUE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
