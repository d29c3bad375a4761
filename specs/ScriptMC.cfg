SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Steps = 4
 Bug = "none"
INVARIANTS Independent Errors Restored
CHECK_DEADLOCK FALSE
