SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Agree Laws
CHECK_DEADLOCK FALSE
