SPECIFICATION Spec
CONSTANTS Locked = TRUE
 MaxStored = 9
 Loggers = {1, 2, 3}
 PerLogger = 3
 Attaches = 2
INVARIANTS Stretch AllHeard
CHECK_DEADLOCK FALSE
