SPECIFICATION Spec
CONSTANTS Depth = 1
 Q = 3
INVARIANTS Agree Arith
CHECK_DEADLOCK FALSE
