SPECIFICATION Spec
CONSTANTS
  Readers = {r1, r2}
  MaxLen = 3
  Keys = {1, 2, 3}
  Scratch = "cache"
INVARIANT Alone
PROPERTY Quiet
CHECK_DEADLOCK FALSE
