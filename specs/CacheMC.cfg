SPECIFICATION Spec
CONSTANTS Frames = {0, 1, 2}
 MaxHist = 4
 MaxSize = 2
INVARIANTS Exact Bounded Unique Disabled
CHECK_DEADLOCK FALSE
