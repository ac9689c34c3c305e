SPECIFICATION Spec
CONSTANTS
  Slices = {"keys", "three", "sign", "addr", "fault"}
  Some = 0
  Out = 100
INVARIANTS Agrees Addressing Selection Possible Surfaces Unneeded GoneDocs Certain Ends
CHECK_DEADLOCK FALSE
VIEW vars
