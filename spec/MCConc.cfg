SPECIFICATION Spec
CONSTANTS
  Some = 400
  Out = 200
  NOps = 2
INVARIANTS Judged Alone Honest Going Bounded OwnOnly
VIEW View
CHECK_DEADLOCK FALSE
