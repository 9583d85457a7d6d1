CONSTANTS Every = 20
          Kind = "div"
SPECIFICATION Spec
INVARIANTS NoFail Right Told
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
