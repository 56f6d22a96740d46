SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
INVARIANTS OnlyRegion WholeRegion Frontier Bounded
PROPERTY Progress
CHECK_DEADLOCK FALSE
