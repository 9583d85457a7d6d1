CONSTANTS R = 4
          N = 3
          Kinds <- Everything
INIT Init
NEXT Next
INVARIANTS Inv Typed
CHECK_DEADLOCK FALSE
