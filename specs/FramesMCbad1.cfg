SPECIFICATION Spec
CONSTANTS NF = 3 Depth = 4 Bad = "nodetach"
INVARIANTS Independent Counts Accounting NothingLeft
CHECK_DEADLOCK FALSE
