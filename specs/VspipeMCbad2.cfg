SPECIFICATION Spec
CONSTANTS N = 3
 R = 2
 Alpha = TRUE
 Bug = "alphaless"
INVARIANTS Prefix Window NoneFailing Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
