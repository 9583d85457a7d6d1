CONSTANTS R = 3
          Radix <- SmallRadix
          ClearScratch = FALSE
          MinDig = 5
          MaxDig = 5
          MinDig1 = 5
          MaxOps = 5
INIT Init
NEXT Next
INVARIANTS NoFail Evaluated Interpolated Product
CHECK_DEADLOCK FALSE
