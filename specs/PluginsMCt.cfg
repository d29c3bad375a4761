SPECIFICATION Spec
CONSTANTS AtomicLoad = TRUE
 MaxOps = 4
 AtomicReg = TRUE
INVARIANTS UniqueNamespaces OneWinner GoodNames
PROPERTY ReadOnlyKept
CHECK_DEADLOCK FALSE
