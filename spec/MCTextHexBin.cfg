CONSTANTS R = 256
          Base = 16
          Part = 2
          Kinds <- KDirect
          N = 4
          M = 2
INIT Init
NEXT Next
INVARIANTS Inv
CHECK_DEADLOCK FALSE
