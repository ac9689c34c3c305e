SPECIFICATION Spec
CONSTANTS
  Slices = {"keys", "route", "msg"}
  Some = 100
  Out = 20
INVARIANTS RoundTrip Subsets Secrecy Onion Layers Hidden ProtShape OneCurve Fresh JudgeAccepts JudgeRejects Refused Live
CHECK_DEADLOCK FALSE
