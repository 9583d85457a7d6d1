CONSTANTS
  MaxSmall = 200
  Bytes = {0, 1, 127, 128, 254, 255}
  MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Anchor Agree Str
CHECK_DEADLOCK FALSE
