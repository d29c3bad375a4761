SPECIFICATION Spec
CONSTANTS NF = 3 Depth = 5 Bad = "leak"
INVARIANTS Independent Counts Accounting NothingLeft
CHECK_DEADLOCK FALSE
