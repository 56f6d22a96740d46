SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxLen = 5
  Eps2 = {1}
INVARIANTS Within Tiled
CHECK_DEADLOCK FALSE
