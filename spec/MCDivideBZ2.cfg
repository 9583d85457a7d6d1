CONSTANTS R = 2
          Radix <- SmallRadix
          Cutoff = 4
          ClampEstimate = TRUE
          ScaleCarry = TRUE
          Lens <- LensBZ2
          Digits <- AllDigits
INIT Init
NEXT Next
INVARIANTS NoFail Inv Quotient
CHECK_DEADLOCK FALSE
