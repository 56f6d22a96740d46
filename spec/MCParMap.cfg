SPECIFICATION Spec
CONSTANTS
  N = 5
  Workers = {a, b, c}
INVARIANTS Disjoint Once Sequential
PROPERTY Ends
CHECK_DEADLOCK FALSE
