CONSTANTS R = 100
          Base = 10
          Part = 2
          Kinds <- KDirect
          N = 5
          M = 2
INIT Init
NEXT Next
INVARIANTS Inv
CHECK_DEADLOCK FALSE
