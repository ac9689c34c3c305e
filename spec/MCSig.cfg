SPECIFICATION Spec
CONSTANTS
  Slices = {"sig", "tok", "both"}
  Frac = 1
  Out = 100
INVARIANTS Agrees Token Signer Unsigned Issuer NoRot Read Kind1 Heard Asked Shuffled Certain Ends
CHECK_DEADLOCK FALSE
VIEW vars
