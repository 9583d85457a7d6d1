CONSTANTS Radix <- SmallRadix
          DRadix <- SmallDRadix
          Places = 1
          Cutoff = 3
          NrPlaces <- SmallNrPlaces
          Fill = TRUE
          Bits = 4
          MaxDig = 5
          Native = 4000
INIT Init
NEXT Next
INVARIANTS Inv Lengths
CHECK_DEADLOCK FALSE
