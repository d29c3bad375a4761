SPECIFICATION Spec
CONSTANTS AtomicLoad = TRUE
 MaxOps = 3
 AtomicReg = FALSE
INVARIANTS UniqueNamespaces OneWinner GoodNames
PROPERTY ReadOnlyKept
CHECK_DEADLOCK FALSE
