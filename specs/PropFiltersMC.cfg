SPECIFICATION Spec
CONSTANTS Depth = 2
 Big = FALSE
INVARIANTS FrameCondition Promises Failures Lengths
CHECK_DEADLOCK FALSE
