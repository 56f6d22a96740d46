SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
  Heights = {0, 1, 2, 5, 16}
  Inf = 1000
INVARIANTS NeverEmpty Ordered Exact Total
