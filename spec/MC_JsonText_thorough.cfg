SPECIFICATION MSpec
CONSTANTS Depth = 5
 Toks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23}
INVARIANT Blank
INVARIANT Closed
INVARIANT RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
