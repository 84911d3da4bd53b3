SPECIFICATION MSpec
CONSTANTS Strs = {1, 2, 3, 4, 5, 6}
 Deep = 2
INVARIANT Codec
INVARIANT RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
