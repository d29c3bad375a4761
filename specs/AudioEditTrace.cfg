SPECIFICATION Spec
CONSTANT Q = 3072
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
