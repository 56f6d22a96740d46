SPECIFICATION Spec
CONSTANTS
  Off = 1
  Hi = 3
  Sizes = {1, 2, 3}
  W = 3
  H = 3
INVARIANTS Paired Right
CHECK_DEADLOCK FALSE
