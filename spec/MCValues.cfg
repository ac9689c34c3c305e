SPECIFICATION Spec
CONSTANTS
  Parts = {"build", "json", "err", "res"}
  Types = {"DIDDoc", "VM", "Secret", "Service", "Message", "Attachment", "FromPrior", "PackOpts", "UnpackOpts"}
  MaxCalls = 3
  MaxEdits = 2
  MaxCtx = 4
  MaxStore = 4
  Frac = 100
INVARIANTS Accumulates Untouched Commute SelfForm Normal Unknown Required Optional Kept Typed ErrKind ErrChain ErrJudge FirstStored
CONSTRAINT Wrote
CHECK_DEADLOCK FALSE
