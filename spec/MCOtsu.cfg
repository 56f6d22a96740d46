SPECIFICATION Spec
CONSTANTS
  L = 5
  MaxCount = 3
INVARIANTS Running Best SoFar
CHECK_DEADLOCK FALSE
