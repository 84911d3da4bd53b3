SPECIFICATION MSpec
CONSTANTS
  N = 4
  Letters = {0, 1, 37, 65, 128, 255, 43}
INVARIANTS SameEncoding Inverts PadLen UrlInverts
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
