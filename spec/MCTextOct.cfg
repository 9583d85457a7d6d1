CONSTANTS R = 64
          Base = 4
          Part = 3
          Kinds <- KDirect
          N = 7
          M = 2
INIT Init
NEXT Next
INVARIANTS Inv
CHECK_DEADLOCK FALSE
