SPECIFICATION TSpec
CONSTANT Trees = {0, 1}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
