SPECIFICATION Spec
CONSTANTS Reqs = {0, 2}
 Fails = {2}
 Exclusive = FALSE
 Clears = TRUE
INVARIANTS Right OneCall
CHECK_DEADLOCK FALSE
