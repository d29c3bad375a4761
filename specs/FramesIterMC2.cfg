SPECIFICATION Spec
CONSTANTS N = 4 Prefetch = 2 Backlog = 3 Fails = {2} Broken = "no"
INVARIANTS Ascending Complete_ Window NothingRuns
