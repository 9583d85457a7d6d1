CONSTANTS Max = 40
          MaxShift = 5
          MaxExp = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Bounded Canonical Order Laws Shifting Powers SmallOperands ErrorsKeep Text TypeIndependence
PROPERTY Frame
CHECK_DEADLOCK FALSE
