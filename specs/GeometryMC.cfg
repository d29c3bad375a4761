SPECIFICATION Spec
CONSTANTS Depth = 1
 Formats = 1
INVARIANTS Promised Laws Aligned
CHECK_DEADLOCK FALSE
