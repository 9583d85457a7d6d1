CONSTANTS Max = 9
          MaxShift = 4
          MaxExp = 3
SPECIFICATION Spec
VIEW View
INVARIANTS Bounded Canonical Order Laws Shifting Powers SmallOperands ErrorsKeep Text TypeIndependence
PROPERTY Frame
CHECK_DEADLOCK FALSE
