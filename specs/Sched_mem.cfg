SPECIFICATION Spec
CONSTANTS
 NThreads = 3
 MaxThreads = 2
 Mode <- ModeChain
 Reqs <- Chain
 Heavy = {1}
 Nested <- NestChain
 Fails = {}
 Ext <- ExtChain
 OverBudget = 2
 CountBlocked = FALSE
 ParkNested = FALSE
 NoDedup = FALSE
 WakeOnQueue = TRUE
INVARIANTS AtMostOnce Modes Protocol Shared Errors
VIEW View
