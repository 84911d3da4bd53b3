SPECIFICATION MSpec
CONSTANTS
  N = 5
  Letters = {0, 1, 37, 43, 65, 128, 250, 255, 61}
INVARIANTS SameEncoding Inverts PadLen UrlInverts
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
