CONSTANTS R = 6
          N = 3
          Kinds <- Everything
INIT Init
NEXT Next
INVARIANTS Inv Typed
CHECK_DEADLOCK FALSE
