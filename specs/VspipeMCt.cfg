SPECIFICATION Spec
CONSTANTS N = 5
 R = 3
 Alpha = TRUE
 Bug = "none"
INVARIANTS Prefix Window NoneFailing Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
