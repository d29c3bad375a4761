SPECIFICATION Spec
CONSTANTS N = 4  Threads = {t1, t2}  Atomic = TRUE  MaxDrops = 6
INVARIANT Refcounts
CHECK_DEADLOCK FALSE
