SPECIFICATION Spec
CONSTANTS Locked = FALSE
 MaxStored = 9
 Loggers = {1, 2}
 PerLogger = 2
 Attaches = 2
INVARIANTS Stretch
CHECK_DEADLOCK FALSE
