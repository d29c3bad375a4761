SPECIFICATION Spec
CONSTANTS Local = FALSE NEnvs = 3 NThreads = 2 MaxOps = 9 Depth = 3 Bug = 0
INVARIANTS Restored StacksAgree Once Ends
PROPERTIES NoSwitch Back DeadNotSet
CHECK_DEADLOCK FALSE
