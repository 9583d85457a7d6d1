CONSTANTS Radix <- SmallRadix
          DRadix <- SmallDRadix
          Places = 1
          Cutoff = 3
          NrPlaces <- SmallNrPlaces
          Fill = FALSE
          Bits = 4
          MaxDig = 4
          Native = 16
INIT Init
NEXT Next
INVARIANTS Inv Lengths
CHECK_DEADLOCK FALSE
