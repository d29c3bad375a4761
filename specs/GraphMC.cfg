SPECIFICATION Spec
CONSTANTS Local = TRUE
 Thr = {1, 2}
 MaxCalls = 4
PROPERTIES OwnCalls Kept
CHECK_DEADLOCK FALSE
