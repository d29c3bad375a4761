SPECIFICATION Spec
CONSTANTS N = 3  Threads = {t1, t2}  Atomic = FALSE  MaxDrops = 5
INVARIANT Refcounts
CHECK_DEADLOCK FALSE
