SPECIFICATION Spec
CONSTANTS
 NThreads = 2
 MaxThreads = 2
 Mode <- ModeMix
 Reqs <- Diamond
 Heavy = {}
 Nested <- NoNest
 Fails = {}
 Ext <- ExtTwo
 OverBudget = 0
 CountBlocked = FALSE
 ParkNested = FALSE
 NoDedup = FALSE
 WakeOnQueue = TRUE
INVARIANTS AtMostOnce Modes Protocol Shared Errors
VIEW View
