SPECIFICATION Spec
CONSTANTS Reqs = {0, 1, 2, 3}
 Fails = {2}
 Exclusive = TRUE
 Clears = TRUE
INVARIANTS Right OneCall
PROPERTY AllDone
CHECK_DEADLOCK FALSE
