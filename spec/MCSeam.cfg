SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 3
  Vals = {0, 1, 2}
INVARIANTS PathEnergies Connected OnBudget
CHECK_DEADLOCK FALSE
