SPECIFICATION Spec
CONSTANTS Depth = 2
 Formats = 2
INVARIANTS Promised Laws Aligned
CHECK_DEADLOCK FALSE
