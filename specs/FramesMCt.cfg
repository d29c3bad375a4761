SPECIFICATION Spec
CONSTANTS NF = 3 Depth = 7 Bad = "none"
INVARIANTS Independent Counts Accounting NothingLeft
CHECK_DEADLOCK FALSE
