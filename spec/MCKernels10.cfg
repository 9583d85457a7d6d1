CONSTANTS R = 10
          N = 2
          Kinds <- Everything
INIT Init
NEXT Next
INVARIANTS Inv Typed
CHECK_DEADLOCK FALSE
