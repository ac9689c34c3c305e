SPECIFICATION Spec
CONSTANTS
  Slices = {"svc", "path", "keys", "fault"}
  Some = 20000
  Out = 100
INVARIANTS Agrees Service Chains Layers Opaque Through Heard Rest Ends
CHECK_DEADLOCK FALSE
VIEW vars
