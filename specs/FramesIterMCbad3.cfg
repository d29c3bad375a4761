SPECIFICATION Spec
CONSTANTS N = 3 Prefetch = 2 Backlog = 2 Fails = {} Broken = "order"
INVARIANTS Ascending Complete_ Window NothingRuns
