CONSTANTS R = 2
          N = 5
          Kinds <- NoLong
INIT Init
NEXT Next
INVARIANTS Inv Typed
CHECK_DEADLOCK FALSE
