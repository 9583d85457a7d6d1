CONSTANTS Bits = 4
          R = 10
          Direct = 3
          N = 3
          MaxShift = 14
          MaxBase = 6
INIT Init
NEXT Next
INVARIANTS Shifted Power
CHECK_DEADLOCK FALSE
