SPECIFICATION Spec
CONSTANTS Depth = 2
 Q = 3
INVARIANTS Agree Arith
CHECK_DEADLOCK FALSE
