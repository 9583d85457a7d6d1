CONSTANTS W = 16
          R = 16
          Dec = FALSE
          Long = FALSE
          Bytes8 = 4
INIT TInit
NEXT TNext
INVARIANTS TOk
CHECK_DEADLOCK FALSE
