SPECIFICATION Spec
CONSTANTS
  Slices = {"args", "keys", "fault", "life", "late", "calm"}
  Some = 20000
  Out = 100
INVARIANTS Agrees Issuing Refused Able Carried Reported Whole Facts Ends
CHECK_DEADLOCK FALSE
VIEW vars
