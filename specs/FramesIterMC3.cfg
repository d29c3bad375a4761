SPECIFICATION Spec
CONSTANTS N = 4 Prefetch = 1 Backlog = 2 Fails = {1, 3} Broken = "no"
INVARIANTS Ascending Complete_ Window NothingRuns
