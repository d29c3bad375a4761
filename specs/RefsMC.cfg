SPECIFICATION Spec
CONSTANTS N = 3  Threads = {t1, t2}  Atomic = TRUE  MaxDrops = 5
INVARIANT Refcounts
CHECK_DEADLOCK FALSE
