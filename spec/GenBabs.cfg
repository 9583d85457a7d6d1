CONSTANTS NRegs = 5
          Depth = 40
          Cap = 160
SPECIFICATION Spec
INVARIANTS Emit Canonical
CHECK_DEADLOCK FALSE
