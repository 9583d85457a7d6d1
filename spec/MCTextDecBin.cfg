CONSTANTS R = 256
          Base = 10
          Part = 2
          Kinds <- KHorner
          N = 5
          M = 0
INIT Init
NEXT Next
INVARIANTS Inv
CHECK_DEADLOCK FALSE
