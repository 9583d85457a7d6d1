CONSTANTS R = 10
          Radix <- SmallRadix
          Cutoff = 4
          ClampEstimate = TRUE
          ScaleCarry = TRUE
          Lens <- LensBZ10
          Digits <- Corners
INIT Init
NEXT Next
INVARIANTS NoFail Inv Quotient
CHECK_DEADLOCK FALSE
