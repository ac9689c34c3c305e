SPECIFICATION Spec
CONSTANTS
  Slices = {"rcp", "good", "hold", "hdr", "sender", "fault"}
  Some = 100
  Out = 100
INVARIANTS Agrees Bound Checked AllOk FirstOk Weaker Others Reader Named Unnamed Made KindsSaid Surfaces Certain Ends
CHECK_DEADLOCK FALSE
