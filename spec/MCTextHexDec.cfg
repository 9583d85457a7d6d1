CONSTANTS R = 100
          Base = 16
          Part = 1
          Kinds <- KHorner
          N = 4
          M = 0
INIT Init
NEXT Next
INVARIANTS Inv
CHECK_DEADLOCK FALSE
