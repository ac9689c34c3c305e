SPECIFICATION Spec
CONSTANTS
  OpCount = 2
  Questions = 2
  More = 2
  Some = 6000
  Out = 100
INVARIANTS Same Hears Once Ends Shown
CHECK_DEADLOCK FALSE
