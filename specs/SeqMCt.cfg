SPECIFICATION Spec
CONSTANTS MaxLen = 7 Reach = 9
INVARIANTS Elements Direction Construction Halves Whole Twice
