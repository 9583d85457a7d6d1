CONSTANTS R = 2
          Radix <- SmallRadix
          MaxDig = 7
INIT Init
NEXT Next
INVARIANTS NoFail Product
CHECK_DEADLOCK FALSE
