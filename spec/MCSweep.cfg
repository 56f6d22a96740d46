SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes <- SmallSizes
  Cap = 9
  Norms = {"L1", "LInf"}
INVARIANTS NeverBelow ForwardReach Exact
PROPERTY Terminates
