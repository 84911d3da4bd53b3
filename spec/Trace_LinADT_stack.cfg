SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2}
 Fifo = FALSE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
