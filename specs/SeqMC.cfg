SPECIFICATION Spec
CONSTANTS MaxLen = 4 Reach = 5
INVARIANTS Elements Direction Construction Halves Whole Twice
