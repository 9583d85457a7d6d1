CONSTANT NRegs = 12
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
