SPECIFICATION TSpec
CONSTANTS Slots = {0, 1, 2}
 Fifo = TRUE
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
