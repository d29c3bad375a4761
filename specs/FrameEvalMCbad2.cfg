SPECIFICATION Spec
CONSTANTS Reqs = {0, 2}
 Fails = {2}
 Exclusive = TRUE
 Clears = FALSE
INVARIANTS Right OneCall
CHECK_DEADLOCK FALSE
