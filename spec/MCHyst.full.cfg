SPECIFICATION Spec
CONSTANTS
  W = 5
  H = 4
  Full = TRUE
INVARIANTS Sound Complete Once Closed
PROPERTY Ends
CHECK_DEADLOCK FALSE
