SPECIFICATION Spec
CONSTANTS AtomicLoad = FALSE
 MaxOps = 3
 AtomicReg = TRUE
INVARIANTS UniqueNamespaces OneWinner GoodNames
PROPERTY ReadOnlyKept
CHECK_DEADLOCK FALSE
