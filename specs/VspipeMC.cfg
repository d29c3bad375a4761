SPECIFICATION Spec
CONSTANTS N = 4
 R = 2
 Alpha = TRUE
 Bug = "none"
INVARIANTS Prefix Window NoneFailing Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
