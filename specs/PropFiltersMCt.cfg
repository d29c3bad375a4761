SPECIFICATION Spec
CONSTANTS Depth = 2
 Big = TRUE
INVARIANTS FrameCondition Promises Failures Lengths
CHECK_DEADLOCK FALSE
