SPECIFICATION Spec
CONSTANT MaxStored = 500
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
