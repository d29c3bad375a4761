SPECIFICATION Spec
CONSTANTS N = 6 Prefetch = 3 Backlog = 4 Fails = {} Broken = "no"
INVARIANTS Ascending Complete_ Window NothingRuns
