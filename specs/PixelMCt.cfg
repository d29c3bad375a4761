SPECIFICATION Spec
CONSTANTS N = 3
 B = 2
INVARIANTS Involution Identities Diffs Between Order Flat Limits Rounded
CHECK_DEADLOCK FALSE
