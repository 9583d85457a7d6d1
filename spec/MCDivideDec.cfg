CONSTANTS R = 6
          Radix <- SmallRadix
          Cutoff = 4
          ClampEstimate = TRUE
          ScaleCarry = TRUE
          Lens <- LensDec
          Digits <- AllDigits
INIT Init
NEXT Next
INVARIANTS NoFail Inv Quotient
CHECK_DEADLOCK FALSE
