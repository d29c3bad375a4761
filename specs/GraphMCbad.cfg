SPECIFICATION Spec
CONSTANTS Local = FALSE
 Thr = {1, 2}
 MaxCalls = 4
PROPERTIES OwnCalls Kept
CHECK_DEADLOCK FALSE
