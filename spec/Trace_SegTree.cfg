SPECIFICATION TSpec
CONSTANT Slots = {0, 1}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
