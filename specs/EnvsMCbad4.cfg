SPECIFICATION Spec
CONSTANTS Local = TRUE NEnvs = 2 NThreads = 1 MaxOps = 6 Depth = 2 Bug = 4
INVARIANTS Restored StacksAgree Once Ends
PROPERTIES NoSwitch Back DeadNotSet
CHECK_DEADLOCK FALSE
