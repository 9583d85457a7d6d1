CONSTANTS Bits = 2
          R = 4
          Direct = 0
          N = 5
          MaxShift = 15
          MaxBase = 1
INIT Init
NEXT Next
INVARIANTS Shifted Power
CHECK_DEADLOCK FALSE
