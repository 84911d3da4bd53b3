SPECIFICATION MSpec
CONSTANTS Depth = 4
 Toks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 17, 18}
INVARIANT Blank
INVARIANT Closed
INVARIANT RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
