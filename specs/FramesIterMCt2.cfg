SPECIFICATION Spec
CONSTANTS N = 6 Prefetch = 3 Backlog = 5 Fails = {1, 4} Broken = "no"
INVARIANTS Ascending Complete_ Window NothingRuns
