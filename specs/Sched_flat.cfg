SPECIFICATION Spec
CONSTANTS
 NThreads = 3
 MaxThreads = 2
 Mode <- ModeFlat
 Reqs <- Flat
 Heavy = {1}
 Nested <- NestFlat
 Fails = {}
 Ext <- ExtFlat
 OverBudget = 3
 CountBlocked = FALSE
 ParkNested = FALSE
 NoDedup = FALSE
 WakeOnQueue = TRUE
INVARIANTS AtMostOnce Modes Protocol Shared Errors
VIEW View
PROPERTY Answered
