SPECIFICATION Spec
CONSTANTS
  Off = 0
  Hi = 3
  Sizes = {4}
  W = 3
  H = 3
INVARIANTS Paired Right
CHECK_DEADLOCK FALSE
