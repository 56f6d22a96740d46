SPECIFICATION Spec
CONSTANTS
  L = 4
  MaxCount = 2
INVARIANTS Before Nearest Monotone
CHECK_DEADLOCK FALSE
