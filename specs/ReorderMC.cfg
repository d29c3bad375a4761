SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Agree Laws
CHECK_DEADLOCK FALSE
