SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Steps = 5
 Bug = "none"
INVARIANTS Independent Errors Restored
CHECK_DEADLOCK FALSE
