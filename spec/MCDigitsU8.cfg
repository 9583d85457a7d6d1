CONSTANTS W = 256
          R = 100
          Dec = TRUE
          Long = FALSE
          Bytes8 = 8
INIT TInit
NEXT TNext
INVARIANTS TOk
CHECK_DEADLOCK FALSE
