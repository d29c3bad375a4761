SPECIFICATION Spec
CONSTANTS N = 3
 R = 2
 Alpha = FALSE
 Bug = "order"
INVARIANTS Prefix Window NoneFailing Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
