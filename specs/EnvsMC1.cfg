SPECIFICATION Spec
CONSTANTS Local = TRUE NEnvs = 2 NThreads = 2 MaxOps = 7 Depth = 2 Bug = 0
INVARIANTS Restored StacksAgree Once Ends
PROPERTIES NoSwitch Back DeadNotSet
CHECK_DEADLOCK FALSE
