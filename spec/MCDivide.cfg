CONSTANTS R = 4
          Radix <- SmallRadix
          Cutoff = 4
          ClampEstimate = TRUE
          ScaleCarry = TRUE
          Lens <- LensSchool
          Digits <- AllDigits
INIT Init
NEXT Next
INVARIANTS NoFail Inv Quotient
CHECK_DEADLOCK FALSE
