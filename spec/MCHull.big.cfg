SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Convex Holds ExactlyExtreme
CHECK_DEADLOCK FALSE
