SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Steps = 3
 Bug = "global"
INVARIANTS Independent Errors Restored
CHECK_DEADLOCK FALSE
