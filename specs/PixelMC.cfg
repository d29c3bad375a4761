SPECIFICATION Spec
CONSTANTS N = 2
 B = 2
INVARIANTS Involution Identities Diffs Between Order Flat Limits Rounded
CHECK_DEADLOCK FALSE
