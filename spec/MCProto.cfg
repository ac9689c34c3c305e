SPECIFICATION Spec
VIEW State
CONSTANTS
  MaxSend = 1
  MaxAdv = 1
  MaxLay = 2
  Plans = 0
  Events = {"ka", "auth", "med"}
  Out = 400
INVARIANTS Authentic NonRepudiable Flags Secret Rotation Rewrap HiddenOut AllKeys KindsOk
CONSTRAINT Wrote
CHECK_DEADLOCK FALSE
