SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Convex Holds ExactlyExtreme
CHECK_DEADLOCK FALSE
