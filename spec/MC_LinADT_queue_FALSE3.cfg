SPECIFICATION MSpec
CONSTANTS Slots = {0, 1}
 Fifo = TRUE
 MaxLen = 3
 Illegal = FALSE
INVARIANT OrderOk
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
