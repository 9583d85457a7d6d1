CONSTANTS W = 16
          R = 10
          Dec = TRUE
          Long = TRUE
          Bytes8 = 4
INIT TInit
NEXT TNext
INVARIANTS TOk
CHECK_DEADLOCK FALSE
